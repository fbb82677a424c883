SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxFiles = 1
  Focus = "amounts"
  Emit = TRUE
INVARIANTS LawWhole LawNotation LawBalanced LawInline EmitDocs
PROPERTIES LawSettles LawScope
CHECK_DEADLOCK FALSE
