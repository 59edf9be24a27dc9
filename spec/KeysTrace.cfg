SPECIFICATION Spec
CONSTANTS Base = 65536
          Digit = 2
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
