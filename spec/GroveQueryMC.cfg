SPECIFICATION Spec
CONSTANTS Rich = FALSE
CHECK_DEADLOCK FALSE
