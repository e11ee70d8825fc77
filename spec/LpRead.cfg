SPECIFICATION Spec
INVARIANTS Readable Objective Rows Limits Integers_
CHECK_DEADLOCK FALSE
