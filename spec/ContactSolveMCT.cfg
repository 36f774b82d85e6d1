CONSTANTS MaxSteps = 8
SPECIFICATION Spec
INVARIANTS OnlyPushes SlidingNeverReverses FrictionlessKeepsSliding RestsWithoutStabilization
PROPERTIES NoSpring NeverSinks PostClosesTheGap PreShrinksTheGap
CHECK_DEADLOCK FALSE
