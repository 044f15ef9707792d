SPECIFICATION Spec
CONSTANTS Acts = {"cp", "aux", "tx"}
          Xs = {1}
          Cps = {1, 2}
          Steps = 5
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Copies Current Apart EmitS
