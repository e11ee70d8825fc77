CONSTANTS MaxSolves = 6 Mode = "random" Release = "always"
SPECIFICATION Spec
INVARIANTS ReleasedOnce SolvedIffRan Emit
CHECK_DEADLOCK FALSE
