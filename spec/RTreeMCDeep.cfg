SPECIFICATION Spec
CONSTANTS MaxN = 8
          MaxB = 3
          Thrs = {0, 1, 9}
INVARIANTS Good FindsExactly HttpExact NearestExact
CHECK_DEADLOCK FALSE
