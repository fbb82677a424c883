SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  BSize = 1
  Size = 2
  Mode = "reclass"
INVARIANTS LawDedup LawReclass LawChoices EmitProg
CHECK_DEADLOCK FALSE
