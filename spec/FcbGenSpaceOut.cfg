SPECIFICATION GenSpec
CONSTANTS Kind = "space"
          MaxN = 2
          Side = 3
CHECK_DEADLOCK FALSE
