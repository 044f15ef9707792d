SPECIFICATION Spec
CONSTANTS Values = {"", "aa"}
          MaxLeaves = 8
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
INVARIANTS StoredPrefix Arith RootCommits RootFromPositions Stable
