CONSTANTS MaxRows = 14 MaxCols = 13 MaxE = 40 Patterns = {"plus", "mixed"} Random = TRUE Emitting = TRUE
SPECIFICATION Spec
INVARIANTS SameMatrix Pointers Stable AtMostOnce Emit
CHECK_DEADLOCK FALSE
