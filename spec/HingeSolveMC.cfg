CONSTANTS MaxSteps = 6
SPECIFICATION Spec
INVARIANTS MomentumKept NoEnergyWithoutPull DriftShrinks DriftHeals DriftKeptWithoutPull FixedStays MovesTogether
CHECK_DEADLOCK FALSE
