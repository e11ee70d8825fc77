SPECIFICATION Spec
INVARIANTS Shape SameFeasiblePoints SameObjective Marks RowOwners LimitOwners
CHECK_DEADLOCK FALSE
