SPECIFICATION Spec
INVARIANTS DistOK Done
PROPERTIES Final
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 4
  Weights = {0, 1}
  Loops = {0}
  Emit = TRUE
