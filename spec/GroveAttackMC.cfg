SPECIFICATION Spec
CONSTANTS RefsResolved = TRUE
          EmptyChecked = TRUE
          ChildForAll = TRUE
          UnusedChecked = TRUE
          TypedLayers = TRUE
INVARIANTS Sound Complete Out
CHECK_DEADLOCK FALSE
