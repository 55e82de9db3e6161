SPECIFICATION TSpec
INVARIANT Conform
CHECK_DEADLOCK FALSE
