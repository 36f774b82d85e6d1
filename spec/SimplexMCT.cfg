CONSTANTS C = 2
 PC = {1, 5, 8}
SPECIFICATION Spec
INVARIANTS TetReproduces TriProjects EdgeProjects Corners FacesLookInside Counts
PROPERTY SwapNegates
CHECK_DEADLOCK FALSE
