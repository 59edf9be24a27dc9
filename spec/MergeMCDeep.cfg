SPECIFICATION Spec
CONSTANTS MaxFeats = 3
          Coords = {0, 3}
          MaxVerts = 2
INVARIANTS Same Apart
CHECK_DEADLOCK FALSE
