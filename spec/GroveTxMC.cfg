SPECIFICATION Spec
CONSTANTS Xs = {1, 2}
          Steps = 5
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Current EmitS
