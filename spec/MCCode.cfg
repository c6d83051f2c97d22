SPECIFICATION Spec
INVARIANTS Laws StateLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxM = 3
  MaxLen = 4
