SPECIFICATION Spec
CONSTANTS
  Focus = "names"
  Txns = 1
  Emit = TRUE
INVARIANTS LawLoads LawLedger LawRecords LawBean EmitRuns
CHECK_DEADLOCK FALSE
