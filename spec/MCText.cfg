SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 MaxRows = 3
 MaxCols = 3
 Full = FALSE
 Emit = TRUE
INVARIANTS ReadBack
CHECK_DEADLOCK FALSE
