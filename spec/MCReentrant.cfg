SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = 2
  Longest = 2
  Shared = FALSE
  Emit = TRUE
