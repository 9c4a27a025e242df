SPECIFICATION Spec
INVARIANTS TypeOK Order Parts
CHECK_DEADLOCK FALSE
