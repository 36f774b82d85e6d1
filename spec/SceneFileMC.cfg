SPECIFICATION Spec
CONSTANTS Bodies = {"a", "b"}
 Cap = 1
 Tol = 1
INVARIANTS Resolves Back Agrees Apart
CHECK_DEADLOCK FALSE
