SPECIFICATION Spec
CONSTANTS K = 4
 MaxE = 5
INVARIANTS OnlyCycles Sound NoRepeat NotStuck
CHECK_DEADLOCK FALSE
