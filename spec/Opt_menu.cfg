CONSTANTS Mode = "menu"
SPECIFICATION Spec
INVARIANTS BruteForce Emit
CHECK_DEADLOCK FALSE
