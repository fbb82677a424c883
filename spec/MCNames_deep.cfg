SPECIFICATION Spec
CONSTANTS
  Longest = 6
  Emit = TRUE
INVARIANTS LawApart InvBalanced EmitProg
CHECK_DEADLOCK FALSE
