SPECIFICATION Spec
INVARIANTS ViterbiLaw ResultLaw EncLaw BcjrLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxStages = 4
  MaxTap = 2
