SPECIFICATION Spec
CONSTANTS Max = 3
          Carry = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
