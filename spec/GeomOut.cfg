SPECIFICATION GenSpec
CONSTANTS Deep = FALSE
CHECK_DEADLOCK FALSE
