CONSTANTS Bodies = {"b1", "b2", "b3"} Mats = {"default", "m1", "m2"} Kinds <- KAll MaxLen = 40
SPECIFICATION Spec
INVARIANT Emit
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
