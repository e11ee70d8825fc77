CONSTANTS NV = 4 Depth = 7 Mode = "twin"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
