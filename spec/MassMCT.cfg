CONSTANTS
  B = 2
  SHIFTS = {0, 2}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
