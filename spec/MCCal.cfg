SPECIFICATION Spec
CONSTANTS
  Starts <- MCStartsQuick
  Span = 9
  Emit = TRUE
INVARIANTS LawInverse LawOrigin LawFloor LawTexts LawNoTexts LawPhrase EmitTexts
PROPERTY LawStep
CHECK_DEADLOCK FALSE
