----------------------------- MODULE RecordingMC ----------------------------
EXTENDS Recording
CONSTANTS Names, TimesUsed, MaxOps
VARIABLES S, n
vars == << S, n >>
V0 == << VZero, Unit(1), Unit(2) >>
T0 == << << 0, 1, 2 >> >>
Poses == { [m |-> MId, r |-> VZero], [m |-> RotZ, r |-> << 2, 0, 4 >>] }
Shapes == { V0, [k \in 1..3 |-> VAdd(V0[k], << 0, 4, 2 >>)] }
Init == S = EmptyScene /\ n = 0
Step == n < MaxOps /\ n' = n + 1
Add == Step /\ \E x \in Names : ~Knows(S, x) /\ (S' = Put(S, x, NewRigid(V0, T0)) \/ S' = Put(S, x, NewMesh(V0, T0)))
Move == Step /\ \E x \in Names, t \in TimesUsed, p \in Poses : Is(S, x, "rigid") /\ S' = Record(S, x, t, p)
Bend == Step /\ \E x \in Names, t \in TimesUsed, P \in Shapes : Is(S, x, "mesh") /\ S' = Record(S, x, t, P)
Next == Add \/ Move \/ Bend
Spec == Init /\ [][Next]_vars
Exact == \A x \in DOMAIN S, t \in TimesUsed : t \in Times(S, x) =>
           IF S[x].kind = "mesh" THEN PointsAt(S, x, t) = S[x].at[t] ELSE PlaceAt(S, x, t) = S[x].at[t].r /\ TurnKnown(S, x, t) /\ TurnAt(S, x, t) = S[x].at[t].m
Held == \A x \in DOMAIN S : Times(S, x) # {} => LET a == FirstT(S, x)  b == LastT(S, x) IN
           Gap(S, x, a - 3) = 1 /\ Gap(S, x, b + 3) = 1 /\ (S[x].kind = "mesh" => PointsAt(S, x, a - 3) = S[x].at[a] /\ PointsAt(S, x, b + 3) = S[x].at[b])
Between == \A x \in DOMAIN S, t \in 0..8 : Is(S, x, "rigid") /\ Times(S, x) # {} =>
           LET p == PlaceAt(S, x, t)  g == Gap(S, x, t)  lo == S[x].at[Floor(S, x, t)].r  hi == S[x].at[Ceil(S, x, t)].r IN
           \A i \in 1..3 : p[i] >= g * Min2(lo[i], hi[i]) /\ p[i] <= g * Max2(lo[i], hi[i])
KindsKept == [][\A x \in DOMAIN S : x \in DOMAIN S' /\ S'[x].kind = S[x].kind /\ S'[x].V = S[x].V /\ S'[x].T = S[x].T /\ Times(S, x) \subseteq Times(S', x)]_vars
=============================================================================
