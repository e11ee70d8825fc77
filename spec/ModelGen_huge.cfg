CONSTANTS NV = 70 MaxIns = 70 MaxCons = 120 NPts = 4 Mode = "many"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
