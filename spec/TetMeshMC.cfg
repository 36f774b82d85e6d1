CONSTANTS MaxN = 6 MaxT = 4 EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Mutual
INVARIANT Closed
CHECK_DEADLOCK FALSE
