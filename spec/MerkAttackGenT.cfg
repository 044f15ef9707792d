SPECIFICATION Spec
CONSTANTS MaxOps = 6
          Oriented = TRUE
          HashLeaf = FALSE
          BothWays = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
