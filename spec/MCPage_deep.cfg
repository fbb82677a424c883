SPECIFICATION Spec
CONSTANTS Limit = 2 MaxTx = 7 MaxT = 3 MaxArrive = 0 Block = 50 Emit = TRUE
INVARIANTS LawComplete LawTold LawNeverStuck LawCost EmitLayout
PROPERTY LawEnds
CHECK_DEADLOCK FALSE
