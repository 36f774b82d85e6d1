CONSTANTS NP = 2 MaxX = 6 MaxIt = 7 Record = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
