SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 MaxRows = 3
 MaxCols = 3
 Full = TRUE
 Emit = TRUE
INVARIANTS ReadBack
CHECK_DEADLOCK FALSE
