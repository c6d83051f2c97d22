SPECIFICATION Spec
INVARIANTS Laws
PROPERTIES Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 5
  MaxC = 5
  Emit = TRUE
