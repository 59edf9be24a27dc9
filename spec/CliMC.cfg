SPECIFICATION MCSpec
CONSTANT MaxRuns = 4
INVARIANTS Preserved Covers
CHECK_DEADLOCK FALSE
