CONSTANTS NP = 2 MaxX = 3 MaxIt = 3 Record = FALSE
SPECIFICATION Spec
INVARIANTS RollBack NeverMoreThanMax ExitMeaning ResidualsNeverGrow
PROPERTIES MeritsNeverGrow RFactorMoves ShrinksOnlyOnDivergence Live
CHECK_DEADLOCK FALSE
