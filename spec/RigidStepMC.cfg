CONSTANTS MaxSteps = 4
SPECIFICATION Spec
INVARIANTS FixedNeverMoves ConstantVelocityWithoutForces FreeFall Falls OppositeGravitiesCancel IsotropicSpinIsConstant PrincipalSpinIsConstant DampingSlowsDown RotatesAboutTheSpin Rests
CHECK_DEADLOCK FALSE
