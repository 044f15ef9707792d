SPECIFICATION Spec
CONSTANTS Bounds = {"", "00", "01"}
          Universe = {"", "00", "0000", "000000", "01", "0100", "010000", "02"}
CHECK_DEADLOCK FALSE
INVARIANTS EmptyOk OverlapOk SameOk OrderOk TouchOk
