SPECIFICATION Spec
CONSTANTS MaxText = 4
          OutText = 1
INVARIANTS AsSaid Ends
CHECK_DEADLOCK FALSE
