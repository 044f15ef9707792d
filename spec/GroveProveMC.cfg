SPECIFICATION PSpec
CONSTANTS Rich = FALSE
CHECK_DEADLOCK FALSE
