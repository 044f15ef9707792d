SPECIFICATION Spec
CONSTANTS Acts = {"cp", "aux", "tx"}
          Xs = {1}
          Cps = {1}
          Steps = 4
VIEW See
CHECK_DEADLOCK FALSE
INVARIANTS Serial Copies Current Apart EmitS
