CONSTANTS MaxX = 4 MaxIt = 5 Record = FALSE
SPECIFICATION Spec
INVARIANTS RollBack Bounded ExitMeaning ReturnsAnAcceptedIterate RejectsExactlyTheGrowing
PROPERTIES MeritsNeverGrow ShrinksOnlyOnDivergence Live
CHECK_DEADLOCK FALSE
