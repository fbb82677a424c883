SPECIFICATION Spec
CONSTANTS Blocks = 2 Way = "own" Cmds = {"report", "report-html", "report-json", "report-ledger", "report-bean", "report-css", "export-csv", "export-json", "export-ledger", "export-bean", "register", "register-all", "register-csv", "register-json", "accts", "accts-json", "ccy", "import-csv", "import-two", "import-json", "import-stdin", "generate", "import-mine", "generate-mine", "shell", "pages"} Emit = TRUE
INVARIANTS LawOwn LawJudge EmitPlan
CHECK_DEADLOCK FALSE
