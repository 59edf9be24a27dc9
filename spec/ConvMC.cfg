SPECIFICATION MCSpec
CONSTANT Doc <- MCDoc
CONSTANT Out <- MCOut
CONSTANT Deep = FALSE
INVARIANT Faithful
INVARIANT Readable
CHECK_DEADLOCK FALSE
