SPECIFICATION Spec
CONSTANTS K = 7
          MaxOps = 7
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
