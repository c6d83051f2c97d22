SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxA = 4
  MaxB = 4
  Emit = TRUE
