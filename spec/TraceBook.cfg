SPECIFICATION Spec
INVARIANT ModelBalanced
CHECK_DEADLOCK FALSE
