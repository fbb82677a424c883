SPECIFICATION Spec
CONSTANTS
  Focus = "files"
  Size = 4
  Emit = TRUE
INVARIANTS LawFiles EmitRuns
CHECK_DEADLOCK FALSE
