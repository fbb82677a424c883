SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Deep = FALSE
INVARIANTS LawAmounts LawBalance LawBase LawSelect EmitProg
CHECK_DEADLOCK FALSE
