SPECIFICATION Spec
INVARIANT Smallest
CHECK_DEADLOCK FALSE
