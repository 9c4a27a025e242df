SPECIFICATION Spec
CONSTANTS MaxDriver = 1
 MaxIt = 2
 Levels = 2
INVARIANTS Unique Nested Before
CHECK_DEADLOCK FALSE
