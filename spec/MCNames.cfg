SPECIFICATION Spec
CONSTANTS
  Longest = 4
  Emit = TRUE
INVARIANTS LawApart InvBalanced EmitProg
CHECK_DEADLOCK FALSE
