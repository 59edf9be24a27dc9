SPECIFICATION Spec
CONSTANTS MaxSeen = 4
          MaxLen = 2
INVARIANTS AllHeld OrderFree Columns Parses Same
CHECK_DEADLOCK FALSE
