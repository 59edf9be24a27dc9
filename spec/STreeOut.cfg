SPECIFICATION GenSpec
CONSTANTS MaxN = 14
          MaxB = 4
CHECK_DEADLOCK FALSE
