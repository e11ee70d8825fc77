CONSTANTS NV = 2 MaxIns = 4 MaxCons = 7 NPts = 16 Mode = "near"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
