CONSTANTS NV = 2 MaxIns = 0 MaxCons = 2 NPts = 0 Mode = "menu"
SPECIFICATION Spec
INVARIANT Emit Beside
CHECK_DEADLOCK FALSE
