SPECIFICATION Spec
CONSTANTS MaxSeen = 5
          MaxLen = 3
INVARIANTS AllHeld OrderFree Columns Parses Same
CHECK_DEADLOCK FALSE
