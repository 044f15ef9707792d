SPECIFICATION Spec
CONSTANTS MaxOps = 5
          Oriented = TRUE
          HashLeaf = TRUE
          BothWays = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
