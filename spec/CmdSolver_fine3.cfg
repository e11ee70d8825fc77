CONSTANTS Max = 3 Mode = "fine" FreshNames = TRUE
SPECIFICATION Spec
INVARIANTS Honest OwnProblem Clean Emit
CHECK_DEADLOCK FALSE
