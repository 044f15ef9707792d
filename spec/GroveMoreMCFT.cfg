SPECIFICATION Spec
CONSTANTS Acts = {"fault", "tx"}
          Xs = {1}
          Cps = {}
          Steps = 5
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Copies Current Apart EmitS
