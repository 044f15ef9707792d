SPECIFICATION Spec
CONSTANTS Bounds = {"", "00", "0000", "01", "ff"}
          Universe = {"", "00", "0000", "000000", "00000000", "0001", "01", "0100", "02", "ff", "ff00", "ff0000"}
CHECK_DEADLOCK FALSE
INVARIANTS EmptyOk OverlapOk SameOk OrderOk TouchOk
