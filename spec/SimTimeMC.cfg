CONSTANTS MaxT = 7  MaxH = 4  MaxCalls = 2
SPECIFICATION Spec
INVARIANTS SumIsT EveryStepBounded ClosedForm OneRecordPerStep
PROPERTY Terminates
CHECK_DEADLOCK FALSE
