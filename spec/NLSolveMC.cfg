SPECIFICATION Spec
CONSTANTS MAX = 3
 LSMAX = 2
INVARIANT Stopped
INVARIANT Limit
INVARIANT Bounded
INVARIANT Searched
PROPERTY Terminates
CHECK_DEADLOCK FALSE
