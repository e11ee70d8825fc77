SPECIFICATION Spec
INVARIANTS Stationary Nonneg Attributed Complete
CHECK_DEADLOCK FALSE
