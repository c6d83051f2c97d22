SPECIFICATION Spec
CONSTANTS
 Emit = TRUE
 Raw2 = {0, 2, 3, 4, 5, 7}
 Raw3 = {3, 4, 6}
INVARIANTS Factors Sing OutOK RankOK
CHECK_DEADLOCK FALSE
