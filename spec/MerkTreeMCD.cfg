SPECIFICATION Spec
CONSTANTS K = 11
          MaxOps = 1
VIEW View
CHECK_DEADLOCK FALSE
