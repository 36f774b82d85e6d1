------------------------------ MODULE SurfMesh ------------------------------
(* Closed oriented triangle surfaces.  A mesh is [V, T]: vertex positions (integers) and triangles      *)
(* (triples of 1-based vertex indices).                                                               *)
EXTENDS Lib
Half(t) == { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> }
HalfEdges(m) == UNION { Half(m.T[k]) : k \in 1..Len(m.T) }
ValidIndices(m) == \A k \in 1..Len(m.T) : Len(m.T[k]) = 3 /\ \A i \in 1..3 : m.T[k][i] \in 1..Len(m.V)
Proper(m) == \A k \in 1..Len(m.T) : Cardinality(Range(m.T[k])) = 3
(* every directed edge occurs once, and so does its opposite: closed, two-manifold along edges, and     *)
(* consistently oriented                                                                              *)
EdgesOnce(m) == Cardinality(HalfEdges(m)) = 3 * Len(m.T)
Closed(m) == LET H == HalfEdges(m) IN \A h \in H : << h[2], h[1] >> \in H
AllUsed(m) == UNION { Range(m.T[k]) : k \in 1..Len(m.T) } = 1..Len(m.V)
Euler(m) == Len(m.V) - (3 * Len(m.T)) \div 2 + Len(m.T)
ClosedSurface(m, chi) == ValidIndices(m) /\ Proper(m) /\ EdgesOnce(m) /\ Closed(m) /\ AllUsed(m) /\ Euler(m) = chi
TriVol(m, t) == VDot(m.V[t[1]], VCross(m.V[t[2]], m.V[t[3]]))
Vol6(m) == SumSeq([k \in 1..Len(m.T) |-> TriVol(m, m.T[k])])
Normal(m, k) == LET t == m.T[k] IN VCross(VSub(m.V[t[2]], m.V[t[1]]), VSub(m.V[t[3]], m.V[t[1]]))
(* for a convex surface: every vertex is on or behind every triangle's plane *)
Convex(m, tol) == \A k \in 1..Len(m.T), v \in 1..Len(m.V) : VDot(Normal(m, k), VSub(m.V[v], m.V[m.T[k][1]])) <= tol
Lower(m) == [i \in 1..3 |-> SetMin({ m.V[k][i] : k \in 1..Len(m.V) })]
Upper(m) == [i \in 1..3 |-> SetMax({ m.V[k][i] : k \in 1..Len(m.V) })]
(* the surface as a set of oriented triangles in space, whatever the numbering *)
Rot3(t) == { << t[1], t[2], t[3] >>, << t[2], t[3], t[1] >>, << t[3], t[1], t[2] >> }
Shape(m) == { Rot3(<< m.V[m.T[k][1]], m.V[m.T[k][2]], m.V[m.T[k][3]] >>) : k \in 1..Len(m.T) }
=============================================================================
