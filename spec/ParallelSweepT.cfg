CONSTANTS K = 4 B = 1 KeepAll = TRUE
SPECIFICATION Spec
INVARIANTS ColouringIsProper EqualsSequential NonNegative
CHECK_DEADLOCK FALSE
