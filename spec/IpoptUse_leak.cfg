CONSTANTS MaxSolves = 1 Mode = "all" Release = "solved"
SPECIFICATION Spec
INVARIANTS ReleasedOnce SolvedIffRan Emit
CHECK_DEADLOCK FALSE
