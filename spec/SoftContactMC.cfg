CONSTANTS MaxMoves = 1
SPECIFICATION Spec
INVARIANTS Inverse CloseMeansBoundsOverlap FarMeansNoContact OneFace CornersOnSurface LocalWorld NormalIsCovector
CHECK_DEADLOCK FALSE
