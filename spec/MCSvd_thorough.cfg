SPECIFICATION Spec
CONSTANTS
 Emit = TRUE
 Full = TRUE
INVARIANTS Valid Judged
CHECK_DEADLOCK FALSE
