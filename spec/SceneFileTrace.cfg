CONSTANTS
  TStart <- RStart
  TStep <- RStep
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANT Tol = 2
