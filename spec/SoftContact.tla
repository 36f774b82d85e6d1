---------------------------- MODULE SoftContact ----------------------------
(* Contact points between box-shaped soft bodies under affine deformations.  Lengths are integers of   *)
(* 1/1000.  body = [r, M, h]: the material box with half extents h is mapped to the world by           *)
(* x = r + M X, M an integer matrix with determinant 1.  The distance field of a body lives in its     *)
(* material space, so gaps are material distances and normals are world covectors M^-T (+-e_k).        *)
(* A contact has the body A whose distance field gave it, the body B whose surface it lies on, the     *)
(* world position p, the unit normal n (from A to B), the gap g, and the barycentric coordinates of    *)
(* p in a tetrahedron of A and in a tetrahedron of B.                                                  *)
EXTENDS Lib
Adj(m) ==      \* the inverse of a matrix with determinant 1
  << m[5]*m[9] - m[6]*m[8], m[3]*m[8] - m[2]*m[9], m[2]*m[6] - m[3]*m[5],
     m[6]*m[7] - m[4]*m[9], m[1]*m[9] - m[3]*m[7], m[3]*m[4] - m[1]*m[6],
     m[4]*m[8] - m[5]*m[7], m[2]*m[7] - m[1]*m[8], m[1]*m[5] - m[2]*m[4] >>
RowMax(m) == SetMax({ Abs(m[3 * i + 1]) + Abs(m[3 * i + 2]) + Abs(m[3 * i + 3]) : i \in 0..2 })
Local(b, p) == MApp(Adj(b.M), VSub(p, b.r))
World(b, p) == VAdd(b.r, MApp(b.M, p))
Slack(b) == RowMax(Adj(b.M)) + 1          \* rounding of p seen in material space
Excess(b, p) == LET x == Local(b, p) IN << Abs(x[1]) - b.h[1], Abs(x[2]) - b.h[2], Abs(x[3]) - b.h[3] >>
Inf(e) == Max2(e[1], Max2(e[2], e[3]))
PosSum(e) == Max2(e[1], 0) + Max2(e[2], 0) + Max2(e[3], 0)
Cell(b, bnd, res) == (2 * Max2(b.h[1], Max2(b.h[2], b.h[3])) + 2 * bnd) \div (res - 1) + 1
Boundary(b, env) == Max2((2 * Max2(b.h[1], Max2(b.h[2], b.h[3]))) \div 10, 2 * env)
(* the points where the interpolated distance equals the distance to one face's plane *)
FaceOf(b, p, cell) ==
  LET e == Excess(b, p)
      F == { k \in 1..3 : \A j \in 1..3 : j # k => e[j] + cell <= Min2(0, e[k] - cell) }
  IN { k \in F : Abs(Local(b, p)[k]) >= 2 * cell }     \* not near the middle of a thin box
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* the (not normalised, integer) outward covector of a face in the world: row k of the inverse *)
FaceCovector(b, p, k) == LET m == Adj(b.M)  s == Sgn(Local(b, p)[k])
                         IN << s * m[3 * k - 2], s * m[3 * k - 1], s * m[3 * k] >>
Parallel(n, c, tol) == VDot(n, c) > 0 /\ \A i \in 1..3 : Abs(VCross(n, c)[i]) <= tol * SetMax({ Abs(c[j]) : j \in 1..3 })
Signs == {-1, 1}
Corners(b) == { World(b, << sx * b.h[1], sy * b.h[2], sz * b.h[3] >>) : sx \in Signs, sy \in Signs, sz \in Signs }
Hi(b) == [i \in 1..3 |-> SetMax({ c[i] : c \in Corners(b) })]
Lo(b) == [i \in 1..3 |-> SetMin({ c[i] : c \in Corners(b) })]
AABBDist(a, b) == Inf([i \in 1..3 |-> Max2(Lo(a)[i] - Hi(b)[i], Lo(b)[i] - Hi(a)[i])])
(* how far a material distance e along axis k reaches in the world, coordinate-wise *)
Reach(b, k, e) == Abs(e) * SetMax({ Abs(b.M[3 * i + k]) : i \in 0..2 })
(* corners of b that are certainly found by the distance field of a: over one face, and the surface    *)
(* points below them lie within the envelope in every coordinate                                       *)
DeepCorners(a, b, env, cell) ==
  { c \in Corners(b) : LET F == FaceOf(a, c, cell)  e == Excess(a, c)
                       IN F # {} /\ Inf(e) <= env - 2 /\ \A k \in F : Reach(a, k, e[k]) <= env - 2 }
=============================================================================
