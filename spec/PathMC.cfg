SPECIFICATION Spec
CONSTANTS Depth = 4
          Segs = {"", "61"}
          Starts <- MCStarts
CHECK_DEADLOCK FALSE
INVARIANTS Undo
