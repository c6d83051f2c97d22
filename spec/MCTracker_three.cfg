SPECIFICATION Spec
INVARIANTS Exact Linear
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 3
  Atomic = TRUE
  Emit = TRUE
  Longest = 3
