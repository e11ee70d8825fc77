CONSTANTS MaxSolves = 1 Mode = "all" Release = "always"
SPECIFICATION Spec
INVARIANTS ReleasedOnce SolvedIffRan Emit
CHECK_DEADLOCK FALSE
