---------------------------- MODULE RigidContact ----------------------------
(* Contact points between box-shaped rigid bodies.  Lengths are integers of 1/1000.                   *)
(* body = [r, R, h] (position, cube rotation, half extents); a contact has the body A whose signed     *)
(* distance field gave it, the body B whose surface it lies on, position p, unit normal n (from A to   *)
(* B) and gap g.                                                                                      *)
EXTENDS Lib
Local(b, p) == MApp(MTr(b.R), VSub(p, b.r))
World(b, p) == VAdd(b.r, MApp(b.R, p))
Excess(b, p) == LET x == Local(b, p) IN << Abs(x[1]) - b.h[1], Abs(x[2]) - b.h[2], Abs(x[3]) - b.h[3] >>
Inf(e) == Max2(e[1], Max2(e[2], e[3]))
PosSum(e) == Max2(e[1], 0) + Max2(e[2], 0) + Max2(e[3], 0)
Cell(b, bnd, res) == (2 * Max2(b.h[1], Max2(b.h[2], b.h[3])) + 2 * bnd) \div (res - 1) + 1
Boundary(b, env) == Max2((2 * Max2(b.h[1], Max2(b.h[2], b.h[3]))) \div 10, 2 * env)
(* the points where the interpolated distance equals the distance to one face's plane *)
FaceOf(b, p, cell) ==
  LET e == Excess(b, p)
      F == { k \in 1..3 : \A j \in 1..3 : j # k => e[j] + cell <= Min2(0, e[k] - cell) }
  IN { k \in F : Abs(Local(b, p)[k]) >= 2 * cell }     \* not near the middle of a thin box
Sgn(x) == IF x < 0 THEN -1 ELSE 1
FaceNormal(b, p, k) == MApp(b.R, [i \in 1..3 |-> IF i = k THEN Sgn(Local(b, p)[k]) * 1000 ELSE 0])
Corners(b) == { World(b, << sx * b.h[1], sy * b.h[2], sz * b.h[3] >>) : sx \in {-1, 1}, sy \in {-1, 1}, sz \in {-1, 1} }
(* axis aligned bounds of a box and the pairs of bodies that may be in contact *)
Hi(b) == [i \in 1..3 |-> SetMax({ c[i] : c \in Corners(b) })]
Lo(b) == [i \in 1..3 |-> SetMin({ c[i] : c \in Corners(b) })]
AABBDist(a, b) == Inf([i \in 1..3 |-> Max2(Lo(a)[i] - Hi(b)[i], Lo(b)[i] - Hi(a)[i])])
(* corners of b that are certainly found by the distance field of a, and how deep they are *)
DeepCorners(a, b, env, cell) == { c \in Corners(b) : FaceOf(a, c, cell) # {} /\ Inf(Excess(a, c)) <= env - 2 }
=============================================================================
