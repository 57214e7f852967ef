SPECIFICATION Spec
INVARIANTS ZooOk NoFreeLunch
CHECK_DEADLOCK FALSE
