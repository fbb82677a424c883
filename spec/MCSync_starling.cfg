SPECIFICATION Spec
CONSTANTS Kind = "starling" Depth = 4 Emit = TRUE
VIEW View
INVARIANTS LawComplete LawRepeat LawProper EmitHist
PROPERTY LawKept
CHECK_DEADLOCK FALSE
