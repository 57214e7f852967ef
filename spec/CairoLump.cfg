SPECIFICATION Spec
INVARIANT Runs
CHECK_DEADLOCK FALSE
