SPECIFICATION Spec
CONSTANTS MaxText = 6
          OutText = 1
INVARIANTS AsSaid Ends
CHECK_DEADLOCK FALSE
