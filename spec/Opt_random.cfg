CONSTANTS Mode = "random"
SPECIFICATION Spec
INVARIANTS BruteForce Emit
CHECK_DEADLOCK FALSE
