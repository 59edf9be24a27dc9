SPECIFICATION GenSpec
CONSTANTS MaxSeen = 1
          MaxLen = 1
CHECK_DEADLOCK FALSE
