SPECIFICATION Spec
CONSTANTS MaxOps = 6
          Oriented = TRUE
          HashLeaf = TRUE
          BothWays = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
