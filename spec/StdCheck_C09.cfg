SPECIFICATION Spec
INVARIANTS SameObjective Marks
CHECK_DEADLOCK FALSE
