CONSTANTS MaxOps = 14 MaxProbs = 3 Mode = "random" Design = "always"
SPECIFICATION Spec
INVARIANTS AnswersRight Emit
CHECK_DEADLOCK FALSE
