CONSTANTS Mode = "blocks"
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
