CONSTANTS n = 3
Vals = 3
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
