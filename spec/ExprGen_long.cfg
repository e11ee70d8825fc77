CONSTANTS NV = 30 Depth = 2400 Mode = "span"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
