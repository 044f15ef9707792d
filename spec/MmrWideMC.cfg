SPECIFICATION Spec
INVARIANT Agrees
CONSTANTS N = 20 K = 5
CHECK_DEADLOCK FALSE
