CONSTANTS NV = 12 Depth = 260 Mode = "sums"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
