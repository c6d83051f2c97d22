SPECIFICATION Spec
CONSTANTS
 Orders = {2, 4, 8, 16, 32, 64, 128}
 Step = 5
 Emit = TRUE
INVARIANTS PointsOK DecideOK TableOK
CHECK_DEADLOCK FALSE
