SPECIFICATION Spec
CONSTANTS MaxItems = 3
          AnyByte = TRUE
INVARIANTS Faithful Complete Noticed Total Valid
CHECK_DEADLOCK FALSE
