SPECIFICATION Spec
CONSTANTS
  Focus = "amounts"
  Txns = 2
  Emit = TRUE
INVARIANTS LawLoads LawLedger LawRecords LawBean EmitRuns
CHECK_DEADLOCK FALSE
