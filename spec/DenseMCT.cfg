SPECIFICATION Spec
CONSTANTS Values = {"", "aa"}
          Heights = {1, 2, 3, 4}
          MaxVals = 9
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
INVARIANTS CapacityHolds RootCommits EmptyIsZero
