SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 2
  Longest = 1
  Shared = TRUE
  Emit = FALSE
