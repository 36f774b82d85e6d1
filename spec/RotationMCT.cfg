CONSTANTS M = 2
SPECIFICATION Spec
INVARIANTS NormsMultiply MatrixOfProduct MatrixRotates MatrixOrthogonal ConjugateInverts SignFree LengthKept Frames
CHECK_DEADLOCK FALSE
