SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Flushed
INVARIANT ReadBack
CHECK_DEADLOCK FALSE
