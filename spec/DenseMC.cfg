SPECIFICATION Spec
CONSTANTS Values = {"", "aa"}
          Heights = {1, 2, 3}
          MaxVals = 6
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
INVARIANTS CapacityHolds RootCommits EmptyIsZero
