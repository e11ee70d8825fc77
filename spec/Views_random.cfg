CONSTANTS Mode = "random" MaxOps = 8
SPECIFICATION Spec
INVARIANTS Taylor Combined Emit
CHECK_DEADLOCK FALSE
