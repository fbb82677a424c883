SPECIFICATION Spec
CONSTANTS
  Focus = "json"
  Size = 3
  Emit = TRUE
INVARIANTS LawJsonBack LawJsonBlanks LawJsonWhole EmitRuns
CHECK_DEADLOCK FALSE
