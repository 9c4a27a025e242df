SPECIFICATION Spec
INVARIANT Paired
CHECK_DEADLOCK FALSE
