CONSTANTS MeshName = "tet" Depth = 4
SPECIFICATION Spec
VIEW View
INVARIANTS InternalForcesBalance ForceIsGradient GravityIsWeight DampingOpposes DampingSum TractionIsLoad RigidIsRest EnergyPositive MomentumChange
CHECK_DEADLOCK FALSE
