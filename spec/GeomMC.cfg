SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS NeverStuck RoundTrip NullsExpand
CHECK_DEADLOCK FALSE
