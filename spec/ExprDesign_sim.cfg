CONSTANTS NV = 3 MaxIns = 10 Random = TRUE BugDivSame = FALSE
CONSTANT Scalars <- ScalarsDef
SPECIFICATION Spec
INVARIANTS ValuePreserved GradientRight HessianRight AffineSound AffineValue AffineComplete
CHECK_DEADLOCK FALSE
