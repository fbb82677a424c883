SPECIFICATION Spec
CONSTANTS
  Focus = "screen"
  Wide = TRUE
  Emit = TRUE
INVARIANTS LawColour LawWidth LawWidthReg LawNumbers LawComplete EmitRun
CHECK_DEADLOCK FALSE
