CONSTANTS B = 5 S = 5 Lames <- L1
SPECIFICATION Spec
INVARIANT Objective
INVARIANT Isotropic
INVARIANT NoTorque
INVARIANT Gradient
INVARIANT Rest
INVARIANT Det
CHECK_DEADLOCK FALSE
