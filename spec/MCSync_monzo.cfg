SPECIFICATION Spec
CONSTANTS Kind = "monzo" Depth = 5 Emit = TRUE
VIEW View
INVARIANTS LawComplete LawRepeat LawProper EmitHist
PROPERTY LawKept
CHECK_DEADLOCK FALSE
