SPECIFICATION GenSpec
CONSTANTS Kind = "attr"
          MaxN = 3
          Side = 3
CHECK_DEADLOCK FALSE
