SPECIFICATION Spec
CONSTANTS Keys = {"", "61"}
          MaxLoc = 6
          MaxRef = 3
          MaxN = 7
CHECK_DEADLOCK FALSE
INVARIANTS InvertOk
