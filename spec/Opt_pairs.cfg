CONSTANTS Mode = "pairs"
SPECIFICATION Spec
INVARIANT Apart
CHECK_DEADLOCK FALSE
