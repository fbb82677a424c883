SPECIFICATION Spec
CONSTANTS
  Focus = "json"
  Size = 5
  Emit = TRUE
INVARIANTS LawJsonBack LawJsonBlanks LawJsonWhole EmitRuns
CHECK_DEADLOCK FALSE
