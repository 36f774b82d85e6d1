CONSTANTS
  TStart <- RStart
  TStep <- RStep
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS BScale = 2000
