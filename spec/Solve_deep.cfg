CONSTANTS Copies = 1 Mode = "all" MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Transfer Nonneg OnlyLast Emit
CHECK_DEADLOCK FALSE
