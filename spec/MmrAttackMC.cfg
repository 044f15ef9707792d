SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxItems = 3
          Strict = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
