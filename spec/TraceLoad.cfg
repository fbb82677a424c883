SPECIFICATION LSpec
INVARIANT ModelBalanced
CHECK_DEADLOCK FALSE
