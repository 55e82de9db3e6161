CONSTANTS n = 1
Vals = 5
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
