SPECIFICATION Spec
CONSTANTS Bs = {"p", "pp"}
          Ns = {"x", "xx"}
          Vs = {"7", "abc"}
          MaxLines = 4
          MaxOps = 2
INVARIANTS LastAssignmentWins Unique DumpReload
PROPERTY NeverMadeUp
CHECK_DEADLOCK FALSE
