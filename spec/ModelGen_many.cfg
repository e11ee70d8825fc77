CONSTANTS NV = 24 MaxIns = 26 MaxCons = 32 NPts = 10 Mode = "many"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
