CONSTANTS NV = 4 Depth = 14 Mode = "random"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
