SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Exact
INVARIANT Combined
INVARIANT Exclusive
CHECK_DEADLOCK FALSE
