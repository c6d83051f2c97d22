SPECIFICATION Spec
INVARIANTS ViterbiLaw ResultLaw EncLaw BcjrLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStages = 3
  MaxTap = 1
