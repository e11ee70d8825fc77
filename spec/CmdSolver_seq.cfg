CONSTANTS Max = 2 Mode = "sequence" FreshNames = TRUE
SPECIFICATION Spec
INVARIANTS Honest OwnProblem Clean Emit
CHECK_DEADLOCK FALSE
