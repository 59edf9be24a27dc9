SPECIFICATION Spec
CONSTANTS MaxN = 30
          MaxB = 6
INVARIANTS Good FindsExactly RangeExact
CHECK_DEADLOCK FALSE
