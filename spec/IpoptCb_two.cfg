CONSTANTS MaxOps = 2 MaxProbs = 2 Mode = "all" Design = "always"
SPECIFICATION Spec
INVARIANTS AnswersRight Emit
CHECK_DEADLOCK FALSE
