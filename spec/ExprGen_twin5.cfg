CONSTANTS NV = 4 Depth = 5 Mode = "twin"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
