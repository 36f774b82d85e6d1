CONSTANTS K = 3 B = 1 KeepAll = TRUE
SPECIFICATION Spec
INVARIANTS ColouringIsProper EqualsSequential NonNegative
PROPERTIES Ends
CHECK_DEADLOCK FALSE
