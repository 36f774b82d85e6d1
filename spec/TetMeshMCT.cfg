CONSTANTS MaxN = 7 MaxT = 5 EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Mutual
INVARIANT Closed
CHECK_DEADLOCK FALSE
