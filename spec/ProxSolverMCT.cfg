CONSTANTS MaxX = 6 MaxIt = 6 Record = FALSE
SPECIFICATION Spec
INVARIANTS RollBack Bounded ExitMeaning ReturnsAnAcceptedIterate RejectsExactlyTheGrowing
PROPERTIES MeritsNeverGrow ShrinksOnlyOnDivergence
CHECK_DEADLOCK FALSE
