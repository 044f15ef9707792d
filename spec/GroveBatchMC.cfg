SPECIFICATION Spec
CONSTANTS Most = 3
          Every = 8
          Emits = TRUE
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
