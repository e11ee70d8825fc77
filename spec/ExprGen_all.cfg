CONSTANTS NV = 2 Depth = 2 Mode = "all"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
