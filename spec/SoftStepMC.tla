----------------------------- MODULE SoftStepMC -----------------------------
(* States: a deformed body; the mechanics that must hold in each of them. *)
EXTENDS SoftStep
CONSTANTS MeshName, Depth
VARIABLES x, u, k
vars == << x, u, k >>
TetV == << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>
TwoV == TetV \o << << 1, 1, 1 >> >>
CellV == [i \in 1..8 |-> LET j == i - 1 IN << j % 2, (j \div 2) % 2, j \div 4 >>]
MeshV == IF MeshName = "tet" THEN TetV ELSE IF MeshName = "two" THEN TwoV ELSE CellV
MeshT == IF MeshName = "tet" THEN << << 0, 1, 2, 3 >> >> ELSE IF MeshName = "two" THEN << << 0, 1, 2, 3 >>, << 1, 2, 3, 4 >> >>
         ELSE << << 0, 1, 2, 4 >>, << 3, 2, 1, 7 >>, << 5, 4, 7, 1 >>, << 6, 7, 4, 2 >>, << 1, 2, 4, 7 >> >>
N == Len(MeshV)
Body == [ V |-> MeshV, T |-> MeshT, fixed |-> FALSE, lumped |-> TRUE, dir |-> << >>, trac |-> << [t |-> FaceOf(MeshT[1], 1), l |-> << 3, -1, 2 >>] >>,
          la |-> 2, mu |-> 3, rho |-> 2, c |-> 3, g |-> << 1, -10, 2 >>, x |-> x, u |-> u ]
Init == x = MeshV /\ u = [i \in 1..N |-> VZero] /\ k = 0
Move == \E i \in 1..N, a \in 1..3, s \in {-1, 1} : x' = [x EXCEPT ![i][a] = @ + s] /\ u' = u
Push == \E i \in 1..N, a \in 1..3 : u' = [u EXCEPT ![i][a] = @ + 2] /\ x' = x
Turn == \E R \in {RotX, RotY, RotZ} : x' = [i \in 1..N |-> MApp(R, x[i])] /\ u' = [i \in 1..N |-> MApp(R, u[i])]
Shift == x' = [i \in 1..N |-> VAdd(x[i], << 3, -2, 5 >>)] /\ u' = u
Stretch == \E a \in 1..3 : x' = [i \in 1..N |-> [x[i] EXCEPT ![a] = 2 * @]] /\ u' = u
Next == k < Depth /\ k' = k + 1 /\ (Move \/ Push \/ Turn \/ Shift \/ Stretch)
Spec == Init /\ [][Next]_vars
View == << x, u >>
P == P16s(Body, x)
ASSUME \A i \in 1..Len(MeshT) : Vol6(MeshV, MeshT[i]) \in {1, 2}
(* internal forces balance, and do not turn the body *)
InternalForcesBalance == LET F == TLCEval([n \in 1..N |-> Elastic96(Body, P, n - 1)]) IN
                         /\ VSumSeq(F) = VZero
                         /\ VSumSeq([n \in 1..N |-> VCross(x[n], F[n])]) = VZero
(* the elastic force is the negative gradient of the elastic energy (a quartic polynomial: the 5-point formula is exact) *)
At(n, a, h) == Elastic768([Body EXCEPT !.x = [x EXCEPT ![n][a] = @ + h]])
ForceIsGradient == LET Q == TLCEval(P) IN \A n \in 1..N, a \in 1..3 : -12 * 8 * Elastic96(Body, Q, n - 1)[a] = At(n, a, -2) - 8 * At(n, a, -1) + 8 * At(n, a, 1) - At(n, a, 2)
Volume6 == SumSeq([e \in 1..Len(MeshT) |-> Vol6(MeshV, MeshT[e])])
(* gravity pulls the whole mass; damping opposes motion; a load is spread over its triangle *)
GravityIsWeight == VSumSeq([n \in 1..N |-> Gravity24(Body, n - 1)]) = VScale(4 * Body.rho * Volume6, Body.g)
DampingOpposes == \A l \in BOOLEAN : LET b == [Body EXCEPT !.lumped = l] IN SumSeq([n \in 1..N |-> VDot(u[n], Damping120(b, u, n - 1))]) <= 0
DampingSum == VSumSeq([n \in 1..N |-> Damping120([Body EXCEPT !.lumped = FALSE], u, n - 1)]) = VSumSeq([n \in 1..N |-> Damping120(Body, u, n - 1)])
TractionIsLoad == LET s == VDot(Cross(x, Body.trac[1].t), Cross(x, Body.trac[1].t)) IN
   HasSqrt(s) => VSumSeq([n \in 1..N |-> Traction6(Body, x, n - 1)]) = VScale(3 * Sqrt(s), Body.trac[1].l)
(* a rigidly moved body is free of stress and of elastic energy *)
IsRigid == \A i, j \in 1..N : VDot(VSub(x[i], x[j]), VSub(x[i], x[j])) = VDot(VSub(MeshV[i], MeshV[j]), VSub(MeshV[i], MeshV[j]))
RigidIsRest == IsRigid => Elastic768(Body) = 0 /\ \A n \in 1..N : Elastic96(Body, P, n - 1) = VZero
EnergyPositive == Elastic768(Body) >= 0 /\ Kinetic192(Body) >= 0
(* the step changes momentum by the external forces only: sum of m du *)
MomentumChange == LET b == [Body EXCEPT !.trac = << >>, !.c = 0] IN
   VSumSeq([n \in 1..N |-> VSub(NewU320W(b, P, n - 1), VScale(320 * W(b, n - 1), u[n]))]) = VScale(80 * b.rho * Volume6, b.g)
=============================================================================
