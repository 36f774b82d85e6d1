CONSTANTS Bodies = {"b1", "b2"} Mats = {"default", "m1"} Kinds <- KBody MaxLen = 0
SPECIFICATION Spec
VIEW View
CONSTRAINT Once
INVARIANTS TypeOK RefsResolve Offsets BoundaryConditions
PROPERTIES NoEffectWhenRejected OnlyTheNamedBodyChanges MaterialCoordinatesNeverChange
CHECK_DEADLOCK FALSE
