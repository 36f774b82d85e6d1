CONSTANTS B = 4 S = 3 Lames <- L1
SPECIFICATION Spec
INVARIANT Objective
INVARIANT Isotropic
INVARIANT NoTorque
INVARIANT Gradient
INVARIANT Rest
INVARIANT Det
CHECK_DEADLOCK FALSE
