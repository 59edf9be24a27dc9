SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxB = 3
          Thrs = {0, 1, 9}
          MaxF = 5
          Sizes = {1, 2, 5}
          Gaps = {0, 1, 3}
          Chunks = {1, 2, 4}
INVARIANTS TreeFrugal NearFrugal FileFrugal Lazy
CHECK_DEADLOCK FALSE
