CONSTANTS MaxOps = 1 Mode = "all"
SPECIFICATION Spec
INVARIANTS Typed Emit
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
