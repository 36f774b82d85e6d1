CONSTANTS Cs = {0, 2, 5}
SPECIFICATION Spec
INVARIANTS SlopeIsDifference MixedCommute Numbering ScatterInvariant ScatterPositive TextSize
CHECK_DEADLOCK FALSE
