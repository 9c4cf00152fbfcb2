SPECIFICATION Spec
CONSTANTS
  Alpha = {"", "a", "ab a", "  b;a", "aa", "\tb a"}
  MaxLines = 3
  Strs = {"a", "b", " ", "ab"}
INVARIANTS Lists SortLaw Words CleanLaw SubLaw TagLaw JoinLaw Emit EmitCmds
CHECK_DEADLOCK FALSE
