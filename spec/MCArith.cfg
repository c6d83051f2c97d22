SPECIFICATION Spec
INVARIANTS Laws TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 2
  MaxC = 2
