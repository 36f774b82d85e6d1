CONSTANTS
  Bodies = {"b1", "b2"}  Shapes = {"s1"}  Forces = {"f1"}  Hinges = {"h1"}  Mats = {"default"}
  Pos <- MCPos  Rots <- MCRots  Kinds <- KPlace  MaxLen = 0
SPECIFICATION Spec
VIEW View
CONSTRAINT SmallPos
INVARIANTS TypeOK RefsResolve
PROPERTIES NoEffectWhenRejected OnlyTheNamedBodyChanges NumberingIsStable ModelFrameLaw HingeLaw
CHECK_DEADLOCK FALSE
