CONSTANTS Copies = 5 Mode = "random" MaxSteps = 40
SPECIFICATION Spec
INVARIANTS Transfer Nonneg OnlyLast Emit
CHECK_DEADLOCK FALSE
