SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  N = 3
INVARIANTS LawOrder LawExact LawReverse LawNone LawLinear LawOutside EmitProg
CHECK_DEADLOCK FALSE
