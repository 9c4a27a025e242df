CONSTANTS NC = 3 NW = 2 Proto = "lb"
SPECIFICATION Spec
INVARIANTS RulesKept NoHang Collected
PROPERTY Terminates
CHECK_DEADLOCK FALSE
