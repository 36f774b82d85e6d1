CONSTANTS
  Bodies = {"b1", "b2", "b3"}  Shapes = {"s1", "s2"}  Forces = {"f1", "f2"}  Hinges = {"h1", "h2"}  Mats = {"default", "m1", "m2"}
  Pos <- MCPos2  Rots <- MCRots4  Kinds <- KAll  MaxLen = 40
SPECIFICATION Spec
INVARIANT Emit
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
