CONSTANTS Max = 2 Mode = "fine" FreshNames = FALSE
SPECIFICATION Spec
INVARIANTS Honest OwnProblem Clean Emit
CHECK_DEADLOCK FALSE
