CONSTANTS n = 3
Vals = 2
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
