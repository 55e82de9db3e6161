SPECIFICATION Spec
INVARIANT Arith
INVARIANT Modular
INVARIANT Unary
CHECK_DEADLOCK FALSE
