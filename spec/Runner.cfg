SPECIFICATION Spec
INVARIANT OnFlatMemory
PROPERTY KnownStays
CHECK_DEADLOCK FALSE
