CONSTANTS NV = 2 MaxIns = 2 Random = FALSE BugDivSame = FALSE
CONSTANT Scalars <- ScalarsDef
SPECIFICATION Spec
INVARIANTS ValuePreserved GradientRight HessianRight AffineSound AffineValue AffineComplete
CHECK_DEADLOCK FALSE
