CONSTANTS NV = 3 MaxIns = 8 MaxCons = 5 NPts = 12 Mode = "mix"
SPECIFICATION Spec
INVARIANT Emit Beside
CHECK_DEADLOCK FALSE
