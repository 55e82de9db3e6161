CONSTANTS T = 4
Items = 2
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
