SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  N = 2
INVARIANTS LawOrder LawExact LawReverse LawNone LawLinear LawOutside EmitProg
CHECK_DEADLOCK FALSE
