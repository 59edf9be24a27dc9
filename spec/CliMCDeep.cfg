SPECIFICATION MCSpec
CONSTANT MaxRuns = 6
INVARIANTS Preserved Covers
CHECK_DEADLOCK FALSE
