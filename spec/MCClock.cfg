SPECIFICATION Spec
INVARIANTS Calendar Sundays Summer
CHECK_DEADLOCK FALSE
CONSTANTS
  LastYear = 2099
  Longest = 3
  Emit = TRUE
