CONSTANTS Copies = 1 Mode = "random" MaxSteps = 16
SPECIFICATION Spec
INVARIANTS Transfer Nonneg OnlyLast Emit
CHECK_DEADLOCK FALSE
