CONSTANTS
  B = 1
  SHIFTS = {0, 1, 3}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
