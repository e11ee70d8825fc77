CONSTANTS Mode = "random" MaxLines = 2
SPECIFICATION Spec
INVARIANTS Honest Exact Emit
CHECK_DEADLOCK FALSE
