------------------------------ MODULE Skeleton ------------------------------
(* Inverse kinematics: a tree of bones, each turned by three Euler angles (whole quarter turns here)    *)
(* about the axes of its code and displaced by a vector in the frame of its parent; poses as they were  *)
(* when last computed; serial chains from the root to an end effector with a tool point and a goal.     *)
EXTENDS Lib
Codes == { "XZX", "XYX", "YXY", "YZY", "ZYZ", "ZXZ", "XZY", "XYZ", "YXZ", "YZX", "ZYX", "ZXY" }
Letters(c) == CASE c = "XZX" -> <<1,3,1>> [] c = "XYX" -> <<1,2,1>> [] c = "YXY" -> <<2,1,2>> [] c = "YZY" -> <<2,3,2>> [] c = "ZYZ" -> <<3,2,3>> [] c = "ZXZ" -> <<3,1,3>>
                [] c = "XZY" -> <<1,3,2>> [] c = "XYZ" -> <<1,2,3>> [] c = "YXZ" -> <<2,1,3>> [] c = "YZX" -> <<2,3,1>> [] c = "ZYX" -> <<3,2,1>> [] c = "ZXY" -> <<3,1,2>>
RotOf(a) == CASE a = 1 -> RotX [] a = 2 -> RotY [] OTHER -> RotZ
Turn(a, k) == CASE k % 4 = 0 -> MId [] k % 4 = 1 -> RotOf(a) [] k % 4 = 2 -> MMul(RotOf(a), RotOf(a)) [] OTHER -> MTr(RotOf(a))
Home == [m |-> MId, r |-> VZero]
NewBone(parent, code, ang, t) == [parent |-> parent, code |-> code, ang |-> ang, t |-> t, children |-> << >>, pose |-> Home]
(* bones are numbered from 0; the root has parent -1 *)
EmptySkel == << >>
CanRoot(S, code) == S = << >> /\ code \in Codes
CanAdd(S, p, code) == p >= 0 /\ p < Len(S) /\ code \in Codes
AddRoot(S, code, ang, t) == << NewBone(-1, code, ang, t) >>
AddBone(S, p, code, ang, t) == Append([S EXCEPT ![p + 1].children = Append(@, Len(S))], NewBone(p, code, ang, t))
(* all angles as one sequence of 3 * Len(S) whole quarter turns *)
AngOf(S, i) == S[((i - 1) \div 3) + 1].ang[((i - 1) % 3) + 1]
Angles(S) == [i \in 1..(3 * Len(S)) |-> AngOf(S, i)]
WithAngles(S, A) == [b \in 1..Len(S) |-> [S[b] EXCEPT !.ang = << A[3*b - 2], A[3*b - 1], A[3*b] >>]]
(* pose of bone b (1-based) under the angles A *)
Local(S, A, b) == LET c == Letters(S[b].code) IN MMul(Turn(c[1], A[3*b - 2]), MMul(Turn(c[2], A[3*b - 1]), Turn(c[3], A[3*b])))
RECURSIVE PoseOf(_, _, _)
PoseOf(S, A, b) == LET P == IF S[b].parent < 0 THEN Home ELSE PoseOf(S, A, S[b].parent + 1)
                   IN [m |-> MMul(P.m, Local(S, A, b)), r |-> VAdd(P.r, MApp(P.m, S[b].t))]
Posed(S) == LET A == TLCEval(Angles(S)) IN [b \in 1..Len(S) |-> [S[b] EXCEPT !.pose = PoseOf(S, A, b)]]
Fresh(S) == Posed(S) = S
(* chains *)
RECURSIVE PathTo(_, _)
PathTo(S, b) == IF S[b + 1].parent < 0 THEN << b >> ELSE Append(PathTo(S, S[b + 1].parent), b)
LeafSeq(S) == SelectSeq([b \in 1..Len(S) |-> b - 1], LAMBDA b : S[b + 1].children = << >>)
ChainsOf(S) == LET L == LeafSeq(S) IN [i \in 1..Len(L) |-> [bones |-> PathTo(S, L[i]), goal |-> << 10, 0, 0 >>, tool |-> VZero]]
EffOf(S, c) == LET P == S[c.bones[Len(c.bones)] + 1].pose IN VAdd(P.r, MApp(P.m, c.tool))      \* with the stored poses
Effector(S, A, c) == LET P == PoseOf(S, A, c.bones[Len(c.bones)] + 1) IN VAdd(P.r, MApp(P.m, c.tool))
Bump(A, i, k) == [A EXCEPT ![i] = @ + k]
(* derivatives of the position of the effector: every coordinate is a + b cos + c sin of each angle, so differences *)
(* over quarter turns give the derivatives exactly                                                                   *)
D1x2(S, A, c, i) == VSub(Effector(S, Bump(A, i, 1), c), Effector(S, Bump(A, i, -1), c))                     \* twice the derivative
D2x4(S, A, c, i, j) ==                                                                                       \* four times the second derivative
  IF i = j THEN VScale(2, VSub(VAdd(Effector(S, Bump(A, i, 1), c), Effector(S, Bump(A, i, -1), c)), VScale(2, Effector(S, A, c))))
  ELSE VAdd(VSub(Effector(S, Bump(Bump(A, i, 1), j, 1), c), Effector(S, Bump(Bump(A, i, 1), j, -1), c)),
            VSub(Effector(S, Bump(Bump(A, i, -1), j, -1), c), Effector(S, Bump(Bump(A, i, -1), j, 1), c)))
(* half the squared distances to the goals, its gradient and its matrix of second derivatives *)
Objx2(S, A, C) == SumSeq([k \in 1..Len(C) |-> LET r == VSub(C[k].goal, Effector(S, A, C[k])) IN VDot(r, r)])
Jacx2(S, A, C) == TLCEval([k \in 1..Len(C) |-> [i \in 1..Len(A) |-> D1x2(S, A, C[k], i)]])
Residuals(S, A, C) == TLCEval([k \in 1..Len(C) |-> VSub(C[k].goal, Effector(S, A, C[k]))])
Gradx2(S, A, C) == LET J == Jacx2(S, A, C)  r == Residuals(S, A, C) IN [i \in 1..Len(A) |-> -SumSeq([k \in 1..Len(C) |-> VDot(J[k][i], r[k])])]
Hessx4(S, A, C) == LET J == Jacx2(S, A, C)  r == Residuals(S, A, C) IN
  TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> SumSeq([k \in 1..Len(C) |-> VDot(J[k][i], J[k][j]) - VDot(D2x4(S, A, C[k], i, j), r[k])])]])
(* the same derivatives by axes: the effector turns about the axis of the angle through the joint *)
AxisOf(S, A, i) == LET b == ((i - 1) \div 3) + 1  o == (i - 1) % 3  c == Letters(S[b].code)
                       P == IF S[b].parent < 0 THEN MId ELSE PoseOf(S, A, S[b].parent + 1).m
                       M == CASE o = 0 -> MId [] o = 1 -> Turn(c[1], A[3*b - 2]) [] OTHER -> MMul(Turn(c[1], A[3*b - 2]), Turn(c[2], A[3*b - 1]))
                   IN MApp(P, MApp(M, Unit(c[o + 1])))
OnPath(c, i) == ((i - 1) \div 3) \in Range(c.bones)
AxisD1(S, A, c, i) == IF OnPath(c, i) THEN VCross(AxisOf(S, A, i), VSub(Effector(S, A, c), PoseOf(S, A, ((i - 1) \div 3) + 1).r)) ELSE VZero
AxisD2(S, A, c, i, j) == IF OnPath(c, i) /\ OnPath(c, j) THEN VCross(AxisOf(S, A, Min2(i, j)), AxisD1(S, A, c, Max2(i, j))) ELSE VZero
=============================================================================
