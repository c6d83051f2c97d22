SPECIFICATION SpecM
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
