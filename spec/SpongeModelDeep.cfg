SPECIFICATION Spec
CONSTANTS Vals = 2
          Len_ = 10
INVARIANTS Binding Fresh Bundles
CHECK_DEADLOCK FALSE
