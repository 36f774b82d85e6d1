CONSTANTS A = 3 R = 4
SPECIFICATION Spec
INVARIANT Closest
CHECK_DEADLOCK FALSE
