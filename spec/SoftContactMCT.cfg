CONSTANTS MaxMoves = 2
SPECIFICATION Spec
INVARIANTS Inverse CloseMeansBoundsOverlap FarMeansNoContact OneFace CornersOnSurface LocalWorld NormalIsCovector
CHECK_DEADLOCK FALSE
