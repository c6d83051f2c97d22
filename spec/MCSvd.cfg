SPECIFICATION Spec
CONSTANTS
 Emit = TRUE
 Full = FALSE
INVARIANTS Valid Judged
CHECK_DEADLOCK FALSE
