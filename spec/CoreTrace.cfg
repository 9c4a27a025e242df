SPECIFICATION Spec
VIEW View
INVARIANT Mark
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
