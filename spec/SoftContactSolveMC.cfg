CONSTANTS MaxHits = 2
SPECIFICATION Spec
INVARIANTS Push NoApproach Complementary FixedStay MomentumKept NoEnergyGained
CHECK_DEADLOCK FALSE
