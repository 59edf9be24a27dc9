SPECIFICATION Spec
CONSTANTS MaxFeats = 2
          Coords = {0, 3}
          MaxVerts = 2
INVARIANTS Same Apart
CHECK_DEADLOCK FALSE
