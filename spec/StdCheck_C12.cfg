SPECIFICATION Spec
INVARIANTS Shape RowOwners LimitOwners
CHECK_DEADLOCK FALSE
