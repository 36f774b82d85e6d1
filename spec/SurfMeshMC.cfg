CONSTANTS MaxN = 5
          MaxJ = 5
SPECIFICATION Spec
INVARIANTS IsClosed ShapeKept Outward
CHECK_DEADLOCK FALSE
