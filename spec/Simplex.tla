------------------------------ MODULE Simplex -------------------------------
(* Edges, triangles and tetrahedra with integer corners.  A weight of a point is a fraction with the    *)
(* denominator that belongs to the simplex; numerators are given here.  Points in 1/4.                  *)
EXTENDS Lib
Q4(x) == VScale(4, x)
(* edge: weights of the nearest point of the line, over 4 * uu *)
EdgeDen(x) == LET u == VSub(x[2], x[1]) IN 4 * VDot(u, u)
EdgeNum(x, p) == LET n2 == VDot(VSub(x[2], x[1]), VSub(p, Q4(x[1]))) IN << EdgeDen(x) - n2, n2 >>
(* triangle: weights of the nearest point of the plane, over 4 * nn *)
TriNormal(x) == VCross(VSub(x[2], x[1]), VSub(x[3], x[1]))
TriDen(x) == 4 * VDot(TriNormal(x), TriNormal(x))
TriNum(x, p) == LET d == VSub(p, Q4(x[1]))  n == TriNormal(x)
                    a == VDot(VCross(d, VSub(x[3], x[1])), n)  b == VDot(VCross(VSub(x[2], x[1]), d), n)
                IN << TriDen(x) - a - b, a, b >>
(* tetrahedron: ratios of volumes, over 4 * six times the volume *)
Vol6(x) == VDot(VSub(x[4], x[1]), VCross(VSub(x[2], x[1]), VSub(x[3], x[1])))
TetDen(x) == 4 * Vol6(x)
TetNum(x, p) == LET d == VSub(p, Q4(x[1]))  b1 == VSub(x[2], x[1])  b2 == VSub(x[3], x[1])  b3 == VSub(x[4], x[1])
                    a == VDot(b3, VCross(d, b2))  b == VDot(b3, VCross(b1, d))  c == VDot(d, VCross(b1, b2))
                IN << TetDen(x) - a - b - c, a, b, c >>
InsideW(w, one) == (\A i \in 1..Len(w) : w[i] >= 0 /\ w[i] <= one) /\ SumSeq(w) = one
(* outward-free face data: the plane through the three corners other than a *)
FaceOf(a) == CASE a = 1 -> << 2, 4, 3 >> [] a = 2 -> << 1, 3, 4 >> [] a = 3 -> << 1, 4, 2 >> [] OTHER -> << 1, 2, 3 >>
FaceNormal(x, a) == LET f == FaceOf(a) IN VCross(VSub(x[f[2]], x[f[1]]), VSub(x[f[3]], x[f[1]]))   \* towards corner a in a right oriented tetrahedron
(* lattice points of a simplex with n + 1 layers *)
Lattice(n) == { w \in [1..4 -> 0..n] : w[1] + w[2] + w[3] + w[4] = n }
InteriorLattice(n) == { w \in Lattice(n) : \A a \in 1..4 : w[a] > 0 }
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, 46000)
=============================================================================
