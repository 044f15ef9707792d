SPECIFICATION Spec
CONSTANTS Acts = {"fault", "tx"}
          Xs = {1}
          Cps = {}
          Steps = 4
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Copies Current Apart EmitS
