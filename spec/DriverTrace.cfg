SPECIFICATION Spec
VIEW View_
INVARIANT Mark
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
