SPECIFICATION Spec
INVARIANT Known
CHECK_DEADLOCK FALSE
