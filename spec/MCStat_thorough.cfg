SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 2
  MaxC = 5
  Raw = {0, 1, 2, 3}
  Emit = TRUE
