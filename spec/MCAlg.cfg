SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 2
  MaxC = 2
  Raw = {0, 1, 3}
  RawB = {0, 3}
  DetN = 3
  Emit = TRUE
