SPECIFICATION Spec
CONSTANTS
  Focus = "places"
  Files0 = 2
  Emit = TRUE
INVARIANTS LawFirst LawOneFile LawOthers LawPrecedence LawRefuse LawWritten EmitRun
PROPERTIES LawAdds
CHECK_DEADLOCK FALSE
