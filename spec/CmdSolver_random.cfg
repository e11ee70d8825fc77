CONSTANTS Max = 4 Mode = "random" FreshNames = TRUE
SPECIFICATION Spec
INVARIANTS Honest OwnProblem Clean Emit
CHECK_DEADLOCK FALSE
