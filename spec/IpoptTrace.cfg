SPECIFICATION Spec
INVARIANTS LegalCalls ReleasedAtReturn RanIffResult
CHECK_DEADLOCK FALSE
