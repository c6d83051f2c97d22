SPECIFICATION Spec
INVARIANTS Exact Linear
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 2
  Atomic = TRUE
  Emit = TRUE
  Longest = 6
