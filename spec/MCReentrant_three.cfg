SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 3
  Longest = 1
  Shared = FALSE
  Emit = TRUE
