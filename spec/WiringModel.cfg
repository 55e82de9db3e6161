SPECIFICATION Spec
CONSTANTS Routed = 3
          Virtual = 2
          MaxCopies = 3
INVARIANTS Member Exact Closure
CHECK_DEADLOCK FALSE
