SPECIFICATION Spec
CONSTANTS Depth = 6 Had = TRUE Emit = TRUE
VIEW View
INVARIANTS LawLeaves LawHolds LawUnderstood EmitSaves
CHECK_DEADLOCK FALSE
