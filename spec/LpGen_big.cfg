CONSTANTS Mode = "big"
SPECIFICATION Spec
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
