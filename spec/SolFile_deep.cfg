CONSTANTS Mode = "all" MaxLines = 3
SPECIFICATION Spec
INVARIANTS Honest Exact Emit
CHECK_DEADLOCK FALSE
