SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Deep = 2
INVARIANTS Keeps EmitT
CHECK_DEADLOCK FALSE
