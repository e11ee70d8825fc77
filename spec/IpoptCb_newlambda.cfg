CONSTANTS MaxOps = 3 MaxProbs = 1 Mode = "all" Design = "newlambda"
SPECIFICATION Spec
INVARIANTS AnswersRight Emit
CHECK_DEADLOCK FALSE
