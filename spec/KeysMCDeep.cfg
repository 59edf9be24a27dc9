SPECIFICATION Spec
CONSTANTS Base = 4
          Digit = 1
          W = 4
          Chars = {1, 2, 3}
          StrLen = 5
INVARIANTS IntOk FloatOk StrOk
CHECK_DEADLOCK FALSE
