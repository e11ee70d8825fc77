CONSTANTS MaxOps = 3 Mode = "all"
SPECIFICATION Spec
INVARIANTS Typed Emit
CHECK_DEADLOCK FALSE
