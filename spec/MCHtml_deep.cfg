SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Emit = TRUE
INVARIANTS LawLoads LawNested LawRead EmitRun
CHECK_DEADLOCK FALSE
