SPECIFICATION Spec
CONSTANTS
  Focus = "all"
  Depth = 2
  Emit = TRUE
INVARIANTS InvBalanced InvView LawMap LawMove LawDepr LawWindow LawCombine LawConvert LawMapCcy LawQuote EmitProg
CHECK_DEADLOCK FALSE
