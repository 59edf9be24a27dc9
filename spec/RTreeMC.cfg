SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxB = 3
          Thrs = {0, 1, 9}
INVARIANTS Good FindsExactly HttpExact NearestExact
CHECK_DEADLOCK FALSE
