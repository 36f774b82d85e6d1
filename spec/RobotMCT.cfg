SPECIFICATION Spec
CONSTANTS LinkN = 4  Offsets <- FewOffsets  Turns <- FewTurns
INVARIANTS SameWhateverTheOrder NeverStuck AllRotations HingeSeenFromBoth MeshOnly Rigid
CHECK_DEADLOCK FALSE
