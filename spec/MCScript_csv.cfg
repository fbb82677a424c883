SPECIFICATION Spec
CONSTANTS
  Focus = "csv"
  Size = 4
  Emit = TRUE
INVARIANTS LawCsvBack LawCsvParts LawCsvDelim LawCsvHeader EmitRuns
CHECK_DEADLOCK FALSE
