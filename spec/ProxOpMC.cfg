CONSTANTS A = 2 R = 3
SPECIFICATION Spec
INVARIANT Closest
CHECK_DEADLOCK FALSE
