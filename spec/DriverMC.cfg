SPECIFICATION Spec
INVARIANT LeftAtBest
INVARIANT Untouched
INVARIANT BoundsAgree
INVARIANT Feasible
CHECK_DEADLOCK FALSE
