CONSTANTS
  LEN = 7
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
