CONSTANTS MaxOps = 20 Mode = "random"
SPECIFICATION Spec
INVARIANTS Typed Emit
CHECK_DEADLOCK FALSE
