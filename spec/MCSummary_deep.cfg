SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  MaxAccts = 4
INVARIANTS LawSubtotal LawTotal LawShown LawRows LawNested EmitProg
CHECK_DEADLOCK FALSE
