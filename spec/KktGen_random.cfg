CONSTANTS Mode = "random" MaxCons = 6
SPECIFICATION Spec
INVARIANTS Kkt Emit
CHECK_DEADLOCK FALSE
