SPECIFICATION LimSpec
CONSTANTS Rich = FALSE
Stride = 23
CHECK_DEADLOCK FALSE
