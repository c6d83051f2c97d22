SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 2
  MaxC = 4
  Raw = {0, 2, 3}
  Emit = TRUE
