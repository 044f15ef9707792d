SPECIFICATION Spec
CONSTANTS Conds = 2
          MaxLen = 4
CHECK_DEADLOCK FALSE
INVARIANTS SelIsAt TerminalIsSel RootedAgrees
