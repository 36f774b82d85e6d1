SPECIFICATION Spec
CONSTANTS Kinds = {"dome", "tower", "stack"}
 Tol = 3
INVARIANTS Decides
CHECK_DEADLOCK FALSE
