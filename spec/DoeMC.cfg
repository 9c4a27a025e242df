CONSTANTS N = 3 M = 2
SPECIFICATION Spec
INVARIANTS FactorialOK LatinOK
CHECK_DEADLOCK FALSE
