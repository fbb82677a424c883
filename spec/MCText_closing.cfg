SPECIFICATION Spec
CONSTANTS
  Focus = "closing"
  Txns = 2
  Emit = TRUE
INVARIANTS LawLoads LawLedger LawRecords LawBean EmitRuns
CHECK_DEADLOCK FALSE
