SPECIFICATION MSpec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
