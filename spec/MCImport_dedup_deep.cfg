SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  BSize = 2
  Size = 3
  Mode = "dedup"
INVARIANTS LawDedup LawReclass LawChoices EmitProg
CHECK_DEADLOCK FALSE
