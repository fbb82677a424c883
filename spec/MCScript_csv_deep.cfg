SPECIFICATION Spec
CONSTANTS
  Focus = "csv"
  Size = 6
  Emit = TRUE
INVARIANTS LawCsvBack LawCsvParts LawCsvDelim LawCsvHeader EmitRuns
CHECK_DEADLOCK FALSE
