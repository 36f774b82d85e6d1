CONSTANTS MaxSteps = 0
SPECIFICATION Spec
INVARIANTS LookupLaws
CHECK_DEADLOCK FALSE
