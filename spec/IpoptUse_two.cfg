CONSTANTS MaxSolves = 2 Mode = "all" Release = "always"
SPECIFICATION Spec
INVARIANTS ReleasedOnce SolvedIffRan Emit
CHECK_DEADLOCK FALSE
