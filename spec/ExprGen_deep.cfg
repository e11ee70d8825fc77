CONSTANTS NV = 2 Depth = 3 Mode = "deep"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
