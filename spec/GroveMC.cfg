SPECIFICATION Spec
CONSTANTS Keys = {"01", "02"}
          Depth = 2
          Nodes = 2
          Emits = TRUE
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
INVARIANT EmitS
