CONSTANTS Max = 2 Mode = "interleave" FreshNames = TRUE
SPECIFICATION Spec
INVARIANTS Honest OwnProblem Clean Emit
CHECK_DEADLOCK FALSE
