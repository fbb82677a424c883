SPECIFICATION Spec
CONSTANTS Kind = "monzo" Depth = 6 Emit = TRUE
VIEW View
INVARIANTS LawComplete LawRepeat LawProper EmitHist
PROPERTY LawKept
CHECK_DEADLOCK FALSE
