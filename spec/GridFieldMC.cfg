CONSTANTS MaxV = 1
SPECIFICATION Spec
INVARIANTS LinearReproduced NodesInterpolated Continuous SlopeIsDerivative LinearIndexOneToOne Bounded
CHECK_DEADLOCK FALSE
