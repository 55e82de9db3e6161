SPECIFICATION Spec
INVARIANT Conform
CHECK_DEADLOCK FALSE
