SPECIFICATION MCSpec
CONSTANT Doc <- MCDoc
CONSTANT Out <- MCOut
CONSTANT Deep = TRUE
INVARIANT Faithful
INVARIANT Readable
CHECK_DEADLOCK FALSE
