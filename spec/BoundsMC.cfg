CONSTANTS NA = 3 NB = 2 W = 2 L = 2
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
