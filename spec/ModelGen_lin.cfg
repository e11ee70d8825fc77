CONSTANTS NV = 4 MaxIns = 10 MaxCons = 6 NPts = 12 Mode = "lin"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
