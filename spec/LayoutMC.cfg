SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS Written
CHECK_DEADLOCK FALSE
