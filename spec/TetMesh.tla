------------------------------- MODULE TetMesh -------------------------------
(* Tetrahedral meshes: elements are 4-tuples of node numbers (from 0), coordinates integers.  A tetrahedron      *)
(* (i,j,k,m) with positive volume has the outward faces (j,k,m), (i,m,k), (j,m,i), (j,i,k) opposite its nodes.   *)
EXTENDS Lib
FaceOf(t, v) == IF v = 0 THEN << t[2], t[3], t[4] >> ELSE IF v = 1 THEN << t[1], t[4], t[3] >> ELSE IF v = 2 THEN << t[2], t[4], t[1] >> ELSE << t[2], t[1], t[3] >>
FaceSet(t, v) == { t[i] : i \in (1..4) \ {v + 1} }
Same(f, g) == f = g \/ << f[2], f[3], f[1] >> = g \/ << f[3], f[1], f[2] >> = g
Opp(f, g) == Same(f, << g[2], g[1], g[3] >>)
Elems(T) == 0..(Len(T) - 1)
(* neighbour of element e across the face opposite its node v; -1 at the boundary *)
Neighbour(T, e, v) == LET c == { n \in Elems(T) \ {e} : \E w \in 0..3 : FaceSet(T[n + 1], w) = FaceSet(T[e + 1], v) } IN IF c = {} THEN -1 ELSE CHOOSE n \in c : TRUE
(* every face belongs to one element, or to exactly two that see it from opposite sides *)
Conforming(T) == LET F == (1..Len(T)) \X (0..3)  key == [f \in F |-> FaceSet(T[f[1]], f[2])]
  IN \A f \in F : LET o == { g \in F : g[1] # f[1] /\ key[g] = key[f] }
       IN o = {} \/ (Cardinality(o) = 1 /\ \A g \in o : Opp(FaceOf(T[f[1]], f[2]), FaceOf(T[g[1]], g[2])))
Boundary(T) == { << e, v >> \in Elems(T) \X (0..3) : Neighbour(T, e, v) = -1 }
DirEdges(S) == { << S[i][j], S[i][(j % 3) + 1], i >> : i \in 1..Len(S), j \in 1..3 }
Count(E, a, b) == Cardinality({ e \in E : e[1] = a /\ e[2] = b })
(* a closed oriented surface: every edge is traversed as often one way as the other *)
ClosedSurface(S) == LET E == DirEdges(S) IN \A e \in E : Count(E, e[1], e[2]) = Count(E, e[2], e[1])
Manifold(S) == LET E == DirEdges(S) IN \A e \in E : Count(E, e[1], e[2]) = 1 /\ Count(E, e[2], e[1]) = 1
Vol6(V, t) == VDot(VSub(V[t[4] + 1], V[t[1] + 1]), VCross(VSub(V[t[2] + 1], V[t[1] + 1]), VSub(V[t[3] + 1], V[t[1] + 1])))
SurfVol6(V, S) == SumSeq([i \in 1..Len(S) |-> VDot(V[S[i][1] + 1], VCross(V[S[i][2] + 1], V[S[i][3] + 1]))])
=============================================================================
