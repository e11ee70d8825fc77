CONSTANTS Big = 3 Steps = 6
SPECIFICATION Spec
INVARIANTS DesignIsRight NeverNegative ZeroIffHolds Flip Emit
CHECK_DEADLOCK FALSE
