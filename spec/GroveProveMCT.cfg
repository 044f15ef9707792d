SPECIFICATION PSpec
CONSTANTS Rich = TRUE
CHECK_DEADLOCK FALSE
