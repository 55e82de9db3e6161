SPECIFICATION Spec
CONSTANTS MaxItems = 2
          AnyByte = TRUE
INVARIANTS Faithful Complete Noticed Total Valid
CHECK_DEADLOCK FALSE
