CONSTANTS NV = 2 Depth = 2 Mode = "thin"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
