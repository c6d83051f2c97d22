SPECIFICATION Spec
INVARIANTS RootOK Done TrigOK
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = TRUE
