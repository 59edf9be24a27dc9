SPECIFICATION Spec
INVARIANTS Partial Same
CHECK_DEADLOCK FALSE
