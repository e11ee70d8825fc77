CONSTANTS Big = 2 Steps = 1
SPECIFICATION Spec
INVARIANTS DesignIsRight NeverNegative ZeroIffHolds Flip Emit
CHECK_DEADLOCK FALSE
