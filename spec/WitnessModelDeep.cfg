CONSTANTS T = 4
Items = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
