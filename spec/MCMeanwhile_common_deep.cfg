SPECIFICATION Spec
CONSTANTS Blocks = 3 Way = "common" Cmds = {} Emit = FALSE
VIEW Quiet
INVARIANTS LawOwn LawJudge
CHECK_DEADLOCK FALSE
