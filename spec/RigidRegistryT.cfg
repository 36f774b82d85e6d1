CONSTANTS
  Bodies = {"b1", "b2"}  Shapes = {"s1"}  Forces = {"f1", "f2"}  Hinges = {"h1"}  Mats = {"default", "m1"}
  Pos <- MCPos1  Rots <- MCRots1  Kinds <- KRegistry  MaxLen = 0
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK RefsResolve
PROPERTIES NoEffectWhenRejected OnlyTheNamedBodyChanges NumberingIsStable HingeLaw
CHECK_DEADLOCK FALSE
