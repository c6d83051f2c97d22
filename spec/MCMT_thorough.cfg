SPECIFICATION Spec
INVARIANTS OnSequence
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
