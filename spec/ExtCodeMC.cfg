SPECIFICATION Spec
CONSTANTS
 MaxT = 7
 Poll = 1
 Fix = TRUE
INVARIANTS Contract NoSurvivor Bounded
CHECK_DEADLOCK FALSE
