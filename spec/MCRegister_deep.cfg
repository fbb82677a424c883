SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Deep = TRUE
INVARIANTS LawAmounts LawBalance LawBase LawSelect EmitProg
CHECK_DEADLOCK FALSE
