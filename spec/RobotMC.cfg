SPECIFICATION Spec
CONSTANTS LinkN = 3  Offsets <- SomeOffsets  Turns <- SomeTurns
INVARIANTS SameWhateverTheOrder NeverStuck AllRotations HingeSeenFromBoth MeshOnly Rigid
CHECK_DEADLOCK FALSE
