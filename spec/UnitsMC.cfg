SPECIFICATION Spec
INVARIANT History
CONSTANT Pollute = FALSE
CHECK_DEADLOCK FALSE
