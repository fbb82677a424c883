SPECIFICATION Spec
CONSTANTS Blocks = 3 Way = "place" Cmds = {} Emit = FALSE
VIEW Quiet
INVARIANTS LawOwn LawJudge
CHECK_DEADLOCK FALSE
