CONSTANTS MaxSteps = 3
SPECIFICATION Spec
INVARIANTS OnlyPushes SlidingNeverReverses FrictionlessKeepsSliding RestsWithoutStabilization
PROPERTIES NoSpring NeverSinks PostClosesTheGap PreShrinksTheGap
CHECK_DEADLOCK FALSE
