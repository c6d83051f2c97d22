SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Laws
PROPERTIES Frame CopyLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0,1,2}
  MaxR = 2
  MaxC = 2
  Vals = {1}
  Emit = TRUE
  Extra = TRUE
