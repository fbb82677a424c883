SPECIFICATION Spec
CONSTANTS
  Focus = "term"
  Wide = TRUE
  Emit = TRUE
INVARIANTS LawPager LawFit LawHard LawShare LawColourT EmitRun
CHECK_DEADLOCK FALSE
