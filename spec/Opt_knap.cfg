CONSTANTS Mode = "knap"
SPECIFICATION Spec
INVARIANTS BruteForce Emit
CHECK_DEADLOCK FALSE
