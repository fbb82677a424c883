SPECIFICATION Spec
CONSTANTS
  Focus = "files"
  Size = 5
  Emit = TRUE
INVARIANTS LawFiles EmitRuns
CHECK_DEADLOCK FALSE
