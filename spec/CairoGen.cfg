SPECIFICATION Spec
INVARIANT IsRun
CHECK_DEADLOCK FALSE
