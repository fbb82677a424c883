SPECIFICATION Spec
CONSTANTS Limit = 2 MaxTx = 4 MaxT = 2 MaxArrive = 1 Block = 1 Emit = FALSE
INVARIANTS LawComplete LawTold LawNeverStuck LawCost
PROPERTY LawEnds
CHECK_DEADLOCK FALSE
