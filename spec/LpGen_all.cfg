CONSTANTS Mode = "all"
SPECIFICATION Spec
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
