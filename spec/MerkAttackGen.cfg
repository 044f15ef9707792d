SPECIFICATION Spec
CONSTANTS MaxOps = 5
          Oriented = TRUE
          HashLeaf = FALSE
          BothWays = TRUE
INVARIANTS Out
CHECK_DEADLOCK FALSE
