SPECIFICATION Spec
CONSTANTS
 Emit = TRUE
 Ns = {1, 3, 5, 7, 9, 11, 15, 21, 33}
 Ls = {1, 2, 3, 4, 8}
 As = {0, 1, 3, 5, 7, 10}
 B = 10
INVARIANTS InRange Nyquist Roundtrip
CHECK_DEADLOCK FALSE
