SPECIFICATION Spec
INVARIANT Rectangular
CHECK_DEADLOCK FALSE
