SPECIFICATION Spec
CONSTANTS
  Starts <- MCStartsDeep
  Span = 400
  Emit = TRUE
INVARIANTS LawInverse LawOrigin LawFloor LawTexts LawNoTexts LawPhrase EmitTexts
PROPERTY LawStep
CHECK_DEADLOCK FALSE
