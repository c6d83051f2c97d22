SPECIFICATION Spec
INVARIANTS Exact Linear
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 2
  Atomic = FALSE
  Emit = FALSE
  Longest = 3
