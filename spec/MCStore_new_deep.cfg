SPECIFICATION Spec
CONSTANTS Depth = 7 Had = FALSE Emit = FALSE
VIEW View
INVARIANTS LawLeaves LawHolds LawUnderstood EmitSaves
CHECK_DEADLOCK FALSE
