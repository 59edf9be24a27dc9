SPECIFICATION GenSpec
CONSTANTS MaxN = 6
          MaxB = 3
          Thrs = {0}
CHECK_DEADLOCK FALSE
