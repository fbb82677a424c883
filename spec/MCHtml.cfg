SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Emit = TRUE
INVARIANTS LawLoads LawNested LawRead EmitRun
CHECK_DEADLOCK FALSE
