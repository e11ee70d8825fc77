CONSTANTS Copies = 1 Mode = "menu" MaxSteps = 5
SPECIFICATION Spec
INVARIANTS Transfer Nonneg OnlyLast Emit
CHECK_DEADLOCK FALSE
