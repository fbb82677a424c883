SPECIFICATION Spec
CONSTANTS
  Focus = "amounts"
  Txns = 1
  Emit = TRUE
INVARIANTS LawLoads LawLedger LawRecords LawBean EmitRuns
CHECK_DEADLOCK FALSE
