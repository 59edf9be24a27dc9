SPECIFICATION Spec
CONSTANTS MaxN = 14
          MaxB = 4
INVARIANTS Good FindsExactly RangeExact
CHECK_DEADLOCK FALSE
