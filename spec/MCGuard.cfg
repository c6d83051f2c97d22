SPECIFICATION Spec
INVARIANTS Defined Some
CHECK_DEADLOCK FALSE
CONSTANTS
  Top = 3
  Emit = TRUE
