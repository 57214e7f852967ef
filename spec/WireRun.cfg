SPECIFICATION Spec
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
