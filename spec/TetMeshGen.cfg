CONSTANTS MaxN = 8 MaxT = 7 EmitOn = TRUE
SPECIFICATION Spec
INVARIANT EmitMesh
CHECK_DEADLOCK FALSE
