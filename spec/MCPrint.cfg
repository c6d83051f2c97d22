SPECIFICATION Spec
INVARIANTS ReadsBack ReadsReal
CHECK_DEADLOCK FALSE
CONSTANT Longest = 1
