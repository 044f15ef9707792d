SPECIFICATION Spec
CONSTANTS Depth = 5
          Segs = {"", "61"}
          Starts <- MCStarts
CHECK_DEADLOCK FALSE
INVARIANTS Undo
