CONSTANTS NV = 13 MaxIns = 16 MaxCons = 7 NPts = 8 Mode = "wide"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
