SPECIFICATION Spec
CONSTANTS MaxN = 7
          MaxB = 4
          Thrs = {0, 1, 9}
          MaxF = 6
          Sizes = {1, 2, 5}
          Gaps = {0, 1, 3}
          Chunks = {1, 2, 4}
INVARIANTS TreeFrugal NearFrugal FileFrugal Lazy
CHECK_DEADLOCK FALSE
