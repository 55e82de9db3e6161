SPECIFICATION Spec
CONSTANTS Routed = 4
          Virtual = 0
          MaxCopies = 3
INVARIANTS Exact Argument
VIEW SigmaView
CHECK_DEADLOCK FALSE
