SPECIFICATION Spec
INVARIANTS TypeInv StepInv
CHECK_DEADLOCK FALSE
