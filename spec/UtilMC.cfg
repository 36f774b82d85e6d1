SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3}  Values = {0, 1, 2}  MaxOps = 5
INVARIANTS SameFirst SameItems EmptyTogether
CHECK_DEADLOCK FALSE
