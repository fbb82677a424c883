SPECIFICATION Spec
CONSTANTS
  Focus = "add"
  Size = 1
  Emit = TRUE
INVARIANTS LawAdd LawAddTwice LawAddLess EmitRuns
CHECK_DEADLOCK FALSE
