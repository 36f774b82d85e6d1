CONSTANTS C = 1
 PC = {0, 4, 7}
SPECIFICATION Spec
INVARIANTS TetReproduces TriProjects EdgeProjects Corners FacesLookInside Counts
PROPERTY SwapNegates
CHECK_DEADLOCK FALSE
