CONSTANTS MaxOps = 3 MaxProbs = 1 Mode = "all" Design = "always"
SPECIFICATION Spec
INVARIANTS AnswersRight Emit
CHECK_DEADLOCK FALSE
