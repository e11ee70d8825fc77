CONSTANTS MaxRows = 3 MaxCols = 3 MaxE = 5 Patterns = {"plus", "mixed"} Random = FALSE Emitting = TRUE
SPECIFICATION Spec
INVARIANTS SameMatrix Pointers Stable AtMostOnce Emit
CHECK_DEADLOCK FALSE
