CONSTANTS Copies = 1 Mode = "menu" MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Transfer Nonneg OnlyLast Emit
CHECK_DEADLOCK FALSE
