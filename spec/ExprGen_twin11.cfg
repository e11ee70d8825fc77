CONSTANTS NV = 4 Depth = 11 Mode = "twin"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
