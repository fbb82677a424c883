SPECIFICATION Spec
CONSTANTS Limit = 3 MaxTx = 6 MaxT = 3 MaxArrive = 1 Block = 1 Emit = FALSE
INVARIANTS LawComplete LawTold LawNeverStuck LawCost
PROPERTY LawEnds
CHECK_DEADLOCK FALSE
