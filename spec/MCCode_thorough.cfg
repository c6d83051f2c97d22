SPECIFICATION Spec
INVARIANTS Laws StateLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxM = 4
  MaxLen = 7
