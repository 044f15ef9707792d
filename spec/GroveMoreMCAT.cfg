SPECIFICATION Spec
CONSTANTS Acts = {"aux", "tx"}
          Xs = {1, 2}
          Cps = {}
          Steps = 5
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Copies Current Apart EmitS
