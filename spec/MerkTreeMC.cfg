SPECIFICATION Spec
CONSTANTS K = 6
          MaxOps = 6
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
