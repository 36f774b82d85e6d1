------------------------------ MODULE Recording -----------------------------
(* A recorded scene: rigid bodies (a fixed surface and poses at times) and deforming meshes (points at   *)
(* times).  Between two recorded times values are interpolated, before the first and after the last they *)
(* are held; a mesh without recorded times has its initial points.                                       *)
EXTENDS Lib
EmptyScene == << >>
NewRigid(V, T) == [kind |-> "rigid", V |-> V, T |-> T, at |-> << >>]
NewMesh(V, T) == [kind |-> "mesh", V |-> V, T |-> T, at |-> << >>]
Put(f, k, v) == (k :> v) @@ f
Knows(S, n) == n \in DOMAIN S
Is(S, n, kind) == Knows(S, n) /\ S[n].kind = kind
Record(S, n, t, v) == [S EXCEPT ![n].at = Put(@, t, v)]
Times(S, n) == DOMAIN S[n].at
FirstT(S, n) == SetMin(Times(S, n))
LastT(S, n) == SetMax(Times(S, n))
Floor(S, n, t) == IF t < FirstT(S, n) THEN FirstT(S, n) ELSE SetMax({ s \in Times(S, n) : s <= t })
Ceil(S, n, t) == IF t > LastT(S, n) THEN LastT(S, n) ELSE SetMin({ s \in Times(S, n) : s >= t })
(* gap * value(t) for vectors *)
Gap(S, n, t) == IF Floor(S, n, t) = Ceil(S, n, t) THEN 1 ELSE Ceil(S, n, t) - Floor(S, n, t)
Mix(S, n, t, f(_)) == LET a == Floor(S, n, t)  b == Ceil(S, n, t) IN
  IF a = b THEN f(S[n].at[a]) ELSE VAdd(VScale(b - t, f(S[n].at[a])), VScale(t - a, f(S[n].at[b])))
PointsAt(S, n, t) == IF Times(S, n) = {} THEN S[n].V ELSE [k \in 1..Len(S[n].V) |-> Mix(S, n, t, LAMBDA P : P[k])]     \* times Gap
GapOr1(S, n, t) == IF Times(S, n) = {} THEN 1 ELSE Gap(S, n, t)
PlaceAt(S, n, t) == IF Times(S, n) = {} THEN VZero ELSE Mix(S, n, t, LAMBDA P : P.r)                                    \* times Gap
TurnKnown(S, n, t) == Times(S, n) = {} \/ S[n].at[Floor(S, n, t)].m = S[n].at[Ceil(S, n, t)].m
TurnAt(S, n, t) == IF Times(S, n) = {} THEN MId ELSE S[n].at[Floor(S, n, t)].m
=============================================================================
