SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxA = 3
  MaxB = 3
  Emit = TRUE
