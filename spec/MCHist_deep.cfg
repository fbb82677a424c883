SPECIFICATION HSpec
CONSTANTS
  Focus = "all"
  Depth = 3
  Emit = TRUE
INVARIANTS InvBoth EmitHist
PROPERTIES LawIndependent
CHECK_DEADLOCK FALSE
