CONSTANTS NV = 2 MaxIns = 0 MaxCons = 3 NPts = 0 Mode = "menu"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
