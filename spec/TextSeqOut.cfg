SPECIFICATION GenSpec
CONSTANTS MaxText = 1
          OutText = 5
CHECK_DEADLOCK FALSE
