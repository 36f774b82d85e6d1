CONSTANTS NObj = 2 W = 2 NHash = 2 Frames = 2
SPECIFICATION Spec
INVARIANT Found
INVARIANT Fresh
CHECK_DEADLOCK FALSE
