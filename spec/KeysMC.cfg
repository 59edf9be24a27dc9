SPECIFICATION Spec
CONSTANTS Base = 4
          Digit = 1
          W = 3
          Chars = {1, 2, 3}
          StrLen = 4
INVARIANTS IntOk FloatOk StrOk
CHECK_DEADLOCK FALSE
