CONSTANTS N = 4 MaxRound = 4
SPECIFICATION Spec
INVARIANT ProperSoFar
INVARIANT PaletteSafe
CHECK_DEADLOCK FALSE
