SPECIFICATION Spec
CONSTANTS HMax = 4
          DMax = 4
          HEmit = 3
INVARIANTS Covered Heights Enough Splits EmitT
CHECK_DEADLOCK FALSE
