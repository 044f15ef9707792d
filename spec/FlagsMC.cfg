SPECIFICATION Spec
CONSTANTS MaxEpoch = 3
          Amounts = {"4", "9"}
          Owners = {"aa"}
          Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS Sane RoundTrip SplitOk
PROPERTY Conserves
