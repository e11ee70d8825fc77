CONSTANTS Mode = "random"
SPECIFICATION Spec
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
