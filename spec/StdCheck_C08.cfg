SPECIFICATION Spec
INVARIANTS Shape SameFeasiblePoints
CHECK_DEADLOCK FALSE
