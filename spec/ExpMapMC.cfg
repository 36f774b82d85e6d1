SPECIFICATION Spec
INVARIANTS IsRotation AxisFixed Composes FullTurn HalfAngles JacobianOfRotation
CHECK_DEADLOCK FALSE
