SPECIFICATION Spec
CONSTANTS Most = 4
          Every = 8
          Emits = TRUE
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
