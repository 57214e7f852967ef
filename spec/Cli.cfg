SPECIFICATION Spec
INVARIANT PairsHold
CHECK_DEADLOCK FALSE
