SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT Exact
INVARIANT Combined
INVARIANT Exclusive
CHECK_DEADLOCK FALSE
