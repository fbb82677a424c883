SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  BSize = 1
  Size = 3
  Mode = "reclass"
INVARIANTS LawDedup LawReclass LawChoices EmitProg
CHECK_DEADLOCK FALSE
