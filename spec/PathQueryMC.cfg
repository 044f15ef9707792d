SPECIFICATION Spec
CONSTANTS Conds = 1
          MaxLen = 4
CHECK_DEADLOCK FALSE
INVARIANTS SelIsAt TerminalIsSel RootedAgrees
