CONSTANTS MaxOps = 2 Mode = "all"
SPECIFICATION Spec
INVARIANTS Typed Emit
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
