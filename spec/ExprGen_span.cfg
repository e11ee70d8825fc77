CONSTANTS NV = 100 Depth = 620 Mode = "span"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
