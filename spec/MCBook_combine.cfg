SPECIFICATION Spec
CONSTANTS
  Focus = "combine"
  Depth = 3
  Emit = TRUE
INVARIANTS InvBalanced InvView LawMap LawMove LawDepr LawWindow LawCombine LawConvert LawMapCcy LawQuote EmitProg
CHECK_DEADLOCK FALSE
