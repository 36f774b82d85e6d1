CONSTANTS MaxN = 7
          MaxJ = 8
SPECIFICATION Spec
INVARIANTS IsClosed ShapeKept Outward
CHECK_DEADLOCK FALSE
