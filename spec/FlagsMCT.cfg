SPECIFICATION Spec
CONSTANTS MaxEpoch = 3
          Amounts = {"1", "3", "4", "200"}
          Owners = {"aa", "bb"}
          Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Sane RoundTrip SplitOk
PROPERTY Conserves
