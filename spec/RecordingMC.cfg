SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}  TimesUsed = {0, 3, 8}  MaxOps = 7
INVARIANTS Exact Held Between
PROPERTIES KindsKept
CHECK_DEADLOCK FALSE
