SPECIFICATION Spec
INVARIANTS Central Quotient Frame
CHECK_DEADLOCK FALSE
