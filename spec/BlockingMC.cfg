CONSTANTS N = 4 MaxRound = 2
SPECIFICATION Spec
INVARIANT ProperSoFar
INVARIANT PaletteSafe
CHECK_DEADLOCK FALSE
