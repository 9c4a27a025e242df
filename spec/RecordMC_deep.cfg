SPECIFICATION Spec
CONSTANTS MaxDriver = 1
 MaxIt = 1
 Levels = 3
INVARIANTS Unique Nested Before
CHECK_DEADLOCK FALSE
