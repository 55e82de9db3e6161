SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS P = 5 D = 3 W2 = 4 W4 = 2
