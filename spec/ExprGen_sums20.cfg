CONSTANTS NV = 20 Depth = 60 Mode = "sums"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
