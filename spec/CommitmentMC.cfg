SPECIFICATION Spec
INVARIANT Same
CONSTANTS N = 7
CHECK_DEADLOCK FALSE
