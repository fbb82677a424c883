SPECIFICATION Spec
CONSTANTS
  Texts = 7
  Body = 2
  Len0 = 2
  Emit = TRUE
INVARIANTS LawRefused LawInline LawSequence LawBalanced EmitOps
CHECK_DEADLOCK FALSE
