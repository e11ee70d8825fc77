CONSTANTS NV = 12 Depth = 36 Mode = "wide"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
