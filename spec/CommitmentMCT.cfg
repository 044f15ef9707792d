SPECIFICATION Spec
INVARIANT Same
CONSTANTS N = 11
CHECK_DEADLOCK FALSE
