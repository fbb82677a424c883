SPECIFICATION Spec
CONSTANTS
  Focus = "closing"
  Txns = 3
  Emit = TRUE
INVARIANTS LawLoads LawLedger LawRecords LawBean EmitRuns
CHECK_DEADLOCK FALSE
