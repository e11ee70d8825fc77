CONSTANTS NV = 4 Depth = 130 Mode = "tower"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
