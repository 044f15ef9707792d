SPECIFICATION Spec
CONSTANTS Keys = {"01", "02"}
          Depth = 3
          Nodes = 4
          Emits = FALSE
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
