SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxFiles = 3
  Focus = "scope"
  Emit = TRUE
INVARIANTS LawWhole LawNotation LawBalanced LawInline EmitDocs
PROPERTIES LawSettles LawScope
CHECK_DEADLOCK FALSE
