SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Deep = 2
INVARIANTS Keeps EmitT
CHECK_DEADLOCK FALSE
