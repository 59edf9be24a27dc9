SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS NeverStuck RoundTrip NullsExpand
CHECK_DEADLOCK FALSE
