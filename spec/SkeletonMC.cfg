SPECIFICATION Spec
CONSTANTS MaxBones = 2  UseCodes = {"ZYZ", "XYZ"}  Shifts = {1, 3}  MaxTurns = 2
INVARIANTS Tree Leaves LeafOnce Rigid Lengths Idempotent FreshEffector Derivatives Symmetric
CHECK_DEADLOCK FALSE
