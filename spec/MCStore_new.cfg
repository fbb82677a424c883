SPECIFICATION Spec
CONSTANTS Depth = 6 Had = FALSE Emit = FALSE
VIEW View
INVARIANTS LawLeaves LawHolds LawUnderstood EmitSaves
CHECK_DEADLOCK FALSE
