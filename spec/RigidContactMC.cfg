CONSTANTS MaxMoves = 1
SPECIFICATION Spec
INVARIANTS CloseMeansBoundsOverlap FarMeansNoContact OneFace CornersOnSurface GapIsInterval NormalLeavesA LocalWorld
CHECK_DEADLOCK FALSE
