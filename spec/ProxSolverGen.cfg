CONSTANTS MaxX = 6 MaxIt = 8 Record = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
