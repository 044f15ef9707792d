SPECIFICATION Spec
CONSTANTS Rich = TRUE
CHECK_DEADLOCK FALSE
