SPECIFICATION HSpec
CONSTANTS
  Focus = "all"
  Depth = 2
  Emit = TRUE
INVARIANTS InvBoth EmitHist
PROPERTIES LawIndependent
CHECK_DEADLOCK FALSE
