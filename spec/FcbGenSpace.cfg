SPECIFICATION Spec
CONSTANTS Kind = "space"
          MaxN = 2
          Side = 2
INVARIANTS Sound Complete Failures TypeOK
CHECK_DEADLOCK FALSE
