CONSTANTS NA = 4 NB = 2 W = 2 L = 3
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
