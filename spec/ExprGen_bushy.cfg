CONSTANTS NV = 4 Depth = 22 Mode = "bushy"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
