SPECIFICATION Spec
INVARIANTS DistOK Done
PROPERTIES Final
CHECK_DEADLOCK FALSE
CONSTANTS
  NN = 3
  Weights = {0, 1, 3}
  Loops = {0, 1}
  Emit = TRUE
