----------------------------- MODULE SkeletonMC -----------------------------
(* Histories of building, turning and posing small skeletons.                                           *)
EXTENDS Skeleton
CONSTANTS MaxBones, UseCodes, Shifts, MaxTurns
VARIABLES S, C, n
vars == << S, C, n >>
Vecs == { Unit(a) : a \in Shifts }
Init == S = EmptySkel /\ C = << >> /\ n = 0
Root == \E c \in UseCodes, t \in Vecs : CanRoot(S, c) /\ S' = AddRoot(S, c, << 0, 0, 0 >>, t) /\ UNCHANGED << C, n >>
Add == \E p \in 0..(Len(S) - 1), c \in UseCodes, t \in Vecs : Len(S) < MaxBones /\ CanAdd(S, p, c) /\ S' = AddBone(S, p, c, << 0, 0, 0 >>, t) /\ UNCHANGED << C, n >>
TurnBy == \E i \in 1..(3 * Len(S)) : n < MaxTurns /\ AngOf(S, i) < 1 /\ S' = WithAngles(S, Bump(Angles(S), i, 1)) /\ n' = n + 1 /\ UNCHANGED C
Update == S # << >> /\ S' = Posed(S) /\ S' # S /\ UNCHANGED << C, n >>
Chain == S # << >> /\ C = << >> /\ Len(S) = MaxBones /\ C' = [k \in 1..Len(ChainsOf(S)) |-> [ChainsOf(S)[k] EXCEPT !.goal = << 1, 2, 0 >>, !.tool = << 0, 1, 1 >>]] /\ UNCHANGED << S, n >>
Next == Root \/ Add \/ TurnBy \/ Update \/ Chain
Spec == Init /\ [][Next]_vars
Tree == /\ \A b \in 1..Len(S) : (S[b].parent = -1) = (b = 1) /\ S[b].parent < b - 1
        /\ \A b, d \in 1..Len(S) : ((d - 1) \in Range(S[b].children)) = (S[d].parent = b - 1)
Leaves == \A k \in 1..Len(C) : C[k].bones[1] = 0 /\ \A q \in 2..Len(C[k].bones) : S[C[k].bones[q] + 1].parent = C[k].bones[q - 1]
LeafOnce == \A b \in 1..Len(S) : Cardinality({ k \in 1..Len(ChainsOf(S)) : ChainsOf(S)[k].bones[Len(ChainsOf(S)[k].bones)] = b - 1 }) = (IF S[b].children = << >> THEN 1 ELSE 0)
Rigid == \A b \in 1..Len(S) : IsRot(S[b].pose.m)
Lengths == Fresh(S) => \A b \in 2..Len(S) : LET d == VSub(S[b].pose.r, S[S[b].parent + 1].pose.r) IN VDot(d, d) = VDot(S[b].t, S[b].t)
Idempotent == Fresh(Posed(S)) /\ WithAngles(S, Angles(S)) = S
FreshEffector == Fresh(S) => \A k \in 1..Len(C) : EffOf(S, C[k]) = Effector(S, Angles(S), C[k])
Derivatives == C = << >> \/ (LET A == TLCEval(Angles(S)) IN
   /\ \A k \in 1..Len(C), i \in 1..Len(A) : D1x2(S, A, C[k], i) = VScale(2, AxisD1(S, A, C[k], i))
   /\ \A k \in 1..Len(C), i \in 1..Len(A), j \in 1..Len(A) : D2x4(S, A, C[k], i, j) = VScale(4, AxisD2(S, A, C[k], i, j))
   /\ \A i \in 1..Len(A) : 2 * Gradx2(S, A, C)[i] = Objx2(S, Bump(A, i, 1), C) - Objx2(S, Bump(A, i, -1), C)
      \/ \E k \in 1..Len(C) : OnPath(C[k], i))      \* a gradient without the angle vanishes as the difference does
Symmetric == C = << >> \/ (LET H == Hessx4(S, Angles(S), C) IN \A i, j \in 1..Len(H) : H[i][j] = H[j][i])
=============================================================================
