SPECIFICATION Spec
CONSTANTS Calls_ = 4 Nths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9} Cmds = {"report", "report-html", "report-json", "report-ledger", "report-bean", "report-css", "export-csv", "export-json", "export-ledger", "export-bean", "register", "register-all", "register-csv", "register-json", "accts", "accts-json", "ccy", "import-csv", "import-two", "import-json", "import-stdin", "generate", "import-mine", "generate-mine", "shell", "pages"} Emit = TRUE
INVARIANTS LawJudge EmitPlan
CHECK_DEADLOCK FALSE
