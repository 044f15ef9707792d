SPECIFICATION Spec
CONSTANTS MaxN = 7
          MaxItems = 3
          Strict = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
