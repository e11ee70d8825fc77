CONSTANTS MaxRows = 2 MaxCols = 3 MaxE = 4 Patterns = {"plus", "alternate", "zero", "mixed"} Random = FALSE Emitting = TRUE
SPECIFICATION Spec
INVARIANTS SameMatrix Pointers Stable AtMostOnce Emit
CHECK_DEADLOCK FALSE
