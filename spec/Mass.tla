-------------------------------- MODULE Mass --------------------------------
(* The mass properties of the solid enclosed by a closed triangle mesh with integer vertices, as    *)
(* exact integrals: every triangle spans a signed tetrahedron with the origin.                      *)
(*   6 volume = V6,   24 (first moment) = M24,   120 (second moments) = S120                        *)
EXTENDS Lib
Shifted(V, c) == [k \in 1..Len(V) |-> VSub(V[k], c)]
TDet(V, t) == VDot(V[t[1]], VCross(V[t[2]], V[t[3]]))
RECURSIVE V6To(_, _, _)
V6To(V, T, k) == IF k = 0 THEN 0 ELSE TDet(V, T[k]) + V6To(V, T, k - 1)
V6(V, T) == V6To(V, T, Len(T))
TSum(V, t) == VAdd(V[t[1]], VAdd(V[t[2]], V[t[3]]))
RECURSIVE M24To(_, _, _)
M24To(V, T, k) == IF k = 0 THEN VZero ELSE VAdd(VScale(TDet(V, T[k]), TSum(V, T[k])), M24To(V, T, k - 1))
M24(V, T) == M24To(V, T, Len(T))
(* second moments << xx, yy, zz, xy, xz, yz >> *)
Pair == << << 1, 1 >>, << 2, 2 >>, << 3, 3 >>, << 1, 2 >>, << 1, 3 >>, << 2, 3 >> >>
T2(V, t) == LET d == TDet(V, t)  s == TSum(V, t) IN
  TLCEval([ e \in 1..6 |-> LET i == Pair[e][1]  j == Pair[e][2] IN
    d * (V[t[1]][i] * V[t[1]][j] + V[t[2]][i] * V[t[2]][j] + V[t[3]][i] * V[t[3]][j] + s[i] * s[j]) ])
RECURSIVE S120To(_, _, _)
S120To(V, T, k) == IF k = 0 THEN << 0, 0, 0, 0, 0, 0 >>
                   ELSE LET a == T2(V, T[k])  b == S120To(V, T, k - 1) IN TLCEval([ e \in 1..6 |-> a[e] + b[e] ])
S120(V, T) == S120To(V, T, Len(T))
(* moments of inertia << xx, yy, zz, xy, xz, yz >> of second moments *)
Inertia(S) == << S[2] + S[3], S[3] + S[1], S[1] + S[2], -S[4], -S[5], -S[6] >>
(* second moments about the centre of mass (each within one unit): about a lattice point close to the centre, then shifted *)
Near0(V, T) == LET v == V6(V, T)  m == M24(V, T) IN [ i \in 1..3 |-> m[i] \div (4 * v) ]
Central(V, T) == LET W == Shifted(V, Near0(V, T))  v == V6(W, T)  m == M24(W, T)  S == S120(W, T) IN
  TLCEval([ e \in 1..6 |-> S[e] - (5 * m[Pair[e][1]] * m[Pair[e][2]]) \div (4 * v) ])
(* R diag(B) R^T *)
Congruent(R, B) == TLCEval([ k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3 IN
    R[3 * i + 1] * B[1] * R[3 * j + 1] + R[3 * i + 2] * B[2] * R[3 * j + 2] + R[3 * i + 3] * B[3] * R[3 * j + 3] ])
(* the six independent entries of a row-major matrix *)
Sym6(A) == << A[1], A[5], A[9], A[2], A[3], A[6] >>
=============================================================================
