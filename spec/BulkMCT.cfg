SPECIFICATION Spec
CONSTANTS Values = {"", "aa"}
          Heights = {1, 2}
          MaxVals = 9
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitT
INVARIANTS Partition Decodes RootCommits FlushedBound
PROPERTIES ChunksStable
