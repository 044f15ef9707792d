SPECIFICATION Spec
CONSTANTS Keys = {"", "61"}
          MaxLoc = 4
          MaxRef = 2
          MaxN = 5
CHECK_DEADLOCK FALSE
INVARIANTS InvertOk
