SPECIFICATION Spec
CONSTANTS
  Focus = "register"
  Wide = FALSE
  Emit = TRUE
INVARIANTS LawRefused LawOrder LawLimit LawWindow LawParts LawCombined LawOwn EmitRun
CHECK_DEADLOCK FALSE
