SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxBody = 2
          HDR = 2
INVARIANTS DeliveredInOrder NoSilentLoss NoFailureWithoutCause
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
