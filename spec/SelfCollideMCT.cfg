CONSTANTS Size = 6
SPECIFICATION Spec
INVARIANTS Symmetric MustImpliesMay CrossImpliesBounds SeparatedDoNotTouch CommonPoint CrossNotSeparated
PROPERTIES Orientation
CHECK_DEADLOCK FALSE
