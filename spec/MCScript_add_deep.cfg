SPECIFICATION Spec
CONSTANTS
  Focus = "add"
  Size = 2
  Emit = TRUE
INVARIANTS LawAdd LawAddTwice LawAddLess EmitRuns
CHECK_DEADLOCK FALSE
