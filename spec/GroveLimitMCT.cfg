SPECIFICATION LimSpec
CONSTANTS Rich = FALSE
Stride = 3
CHECK_DEADLOCK FALSE
