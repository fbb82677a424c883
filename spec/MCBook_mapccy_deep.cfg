SPECIFICATION Spec
CONSTANTS
  Focus = "mapccy"
  Depth = 4
  Emit = TRUE
INVARIANTS InvBalanced InvView LawMap LawMove LawDepr LawWindow LawCombine LawConvert LawMapCcy LawQuote EmitProg
CHECK_DEADLOCK FALSE
