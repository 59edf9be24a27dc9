SPECIFICATION Spec
CONSTANT Doc <- TraceDoc
CONSTANT Out <- TraceOut
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
