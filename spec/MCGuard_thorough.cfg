SPECIFICATION Spec
INVARIANTS Defined Some
CHECK_DEADLOCK FALSE
CONSTANTS
  Top = 5
  Emit = TRUE
