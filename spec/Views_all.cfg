CONSTANTS Mode = "all" MaxOps = 0
SPECIFICATION Spec
INVARIANTS Taylor Combined Emit
CHECK_DEADLOCK FALSE
