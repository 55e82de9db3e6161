SPECIFICATION Spec
INVARIANT Law
CONSTANT CurveIds = {1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
