SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS Written
CHECK_DEADLOCK FALSE
