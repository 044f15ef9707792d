SPECIFICATION Spec
CONSTANTS Xs = {1, 2}
          Steps = 6
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Current EmitS
