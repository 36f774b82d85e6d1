----------------------------- MODULE TetMeshTrace -----------------------------
EXTENDS TetMesh, TraceRun
RStart(ev) == [k |-> ev.kind]
F(ok, name) == IF ok THEN {} ELSE {name}
SumVol(V, T) == SumSeq([i \in 1..Len(T) |-> Vol6(V, T[i])])
RStep(st, ev) == [ st |-> st, fails |->
  IF ev.out # "ok" THEN {"outcome"}
  ELSE IF ev.op = "topology" THEN
    LET T == ev.T  want == [i \in 1..Len(T) |-> [v \in 1..4 |-> Neighbour(T, i - 1, v - 1)]]
        got == { << ev.O[s][1], ev.O[s][2] >> : s \in 1..Len(ev.O) }
    IN F(ev.N = want, "neighbours")
       \cup F(Len(ev.S) = Len(ev.O) /\ got = Boundary(T) /\ Cardinality(got) = Len(ev.S), "one_surface_triangle_per_boundary_face")
       \cup F(Len(ev.S) # Len(ev.O) \/ got # Boundary(T) \/ \A s \in 1..Len(ev.S) : Same(ev.S[s], FaceOf(T[ev.O[s][1] + 1], ev.O[s][2])), "surface_triangle_of_its_owner_outward")
       \cup F(ClosedSurface(ev.S), "surface_is_closed")
       \cup F(\A v \in 1..Len(ev.star) : Len(ev.star[v]) = Cardinality(Range(ev.star[v])) /\ Range(ev.star[v]) = { e \in Elems(T) : v - 1 \in Range(T[e + 1]) }, "circulator")
       \cup F(Len(ev.tri) = 4 * Len(T) /\ \A e \in Elems(T) : \A v \in 0..3 : Cardinality({ k \in 1..4 : Same(ev.tri[4 * e + k], FaceOf(T[e + 1], v)) }) = 1, "triangles_of_the_tetrahedra")
       \cup F(ev.frozen, "input_unchanged")
  ELSE IF ev.op = "volumes" THEN
    F(ev.vol6 = [i \in 1..Len(ev.T) |-> Vol6(ev.V, ev.T[i])], "signed_volume")
    \cup F(SurfVol6(ev.V, ev.S) = SumVol(ev.V, ev.T), "surface_encloses_the_volume")
  ELSE IF ev.op = "beam" THEN
    LET V == ev.V  T == ev.T  n == ev.n  d == ev.d
        grid == { << (2 * i - (n[1] - 1)) * d[1], (2 * j - (n[2] - 1)) * d[2], (2 * k - (n[3] - 1)) * d[3] >> : i \in 0..(n[1] - 1), j \in 0..(n[2] - 1), k \in 0..(n[3] - 1) }
    IN F(Len(V) = n[1] * n[2] * n[3] /\ Range(V) = grid, "nodes_on_the_grid")
       \cup F(Len(T) = 5 * (n[1] - 1) * (n[2] - 1) * (n[3] - 1) /\ \A i \in 1..Len(T) : Vol6(V, T[i]) > 0, "positive_tetrahedra")
       \cup F(SumVol(V, T) = 48 * d[1] * d[2] * d[3] * (n[1] - 1) * (n[2] - 1) * (n[3] - 1), "fills_the_block")
       \cup F(Conforming(T), "conforming")
       \cup F(\A b \in Boundary(T) : \E i \in 1..3 : \A x, y \in FaceSet(T[b[1] + 1], b[2]) : V[x + 1][i] = V[y + 1][i] /\ Abs(V[x + 1][i]) = (n[i] - 1) * d[i], "boundary_on_the_box")
       \cup F(ev.attr, "values_follow_the_nodes")
  ELSE IF ev.op = "loop" THEN
    LET V == ev.V  T == ev.T  V2 == ev.V2  T2 == ev.T2
        edges == UNION { { { T[i][x[1]], T[i][x[2]] } : x \in { y \in (1..4) \X (1..4) : y[1] < y[2] } } : i \in 1..Len(T) }
        mid(e) == LET a == SetMin(e)  b == SetMax(e) IN VAdd(V[a + 1], V[b + 1])
    IN F(Len(V2) = Len(V) + Cardinality(edges) /\ (\A i \in 1..Len(V) : V2[i] = VScale(2, V[i])), "old_nodes_kept_one_new_node_per_edge")
       \cup F({ V2[i] : i \in (Len(V) + 1)..Len(V2) } = { mid(e) : e \in edges }, "new_nodes_at_edge_midpoints")
       \cup F(Len(T2) = 8 * Len(T) /\ \A i \in 1..Len(T2) : Range(T2[i]) \subseteq 0..(Len(V2) - 1), "eight_children_per_tetrahedron")
       \cup F(Len(T2) # 8 * Len(T) \/ \A i \in 1..Len(T2) : ev.sign * Vol6(V2, T2[i]) > 0, "children_keep_the_orientation")
       \cup F(Len(T2) # 8 * Len(T) \/ SumVol(V2, T2) = 8 * SumVol(V, T), "children_fill_the_parent")
       \cup F(Conforming(T2), "conforming")
       \cup F(ev.frozen, "input_unchanged")
  ELSE IF ev.op = "explode" THEN
    LET V == ev.V  T == ev.T
    IN F(\A e \in Elems(T) : \A a \in 1..4 : \A i \in 1..3 : LET c == V[T[e + 1][1] + 1][i] + V[T[e + 1][2] + 1][i] + V[T[e + 1][3] + 1][i] + V[T[e + 1][4] + 1][i]
              IN 4 * ev.s[2] * ev.Vo[4 * e + a][i] = ev.s[2] * c + (4 * V[T[e + 1][a] + 1][i] - c) * ev.s[1], "shrunk_about_the_centroid")
       \cup F(Len(ev.Fo) = 4 * Len(T) /\ \A e \in Elems(T) : \A v \in 0..3 : Cardinality({ k \in 1..4 : Same(ev.Fo[4 * e + k], FaceOf(<< 4 * e, 4 * e + 1, 4 * e + 2, 4 * e + 3 >>, v)) }) = 1, "faces_of_the_pieces")
  ELSE {"unknown_event"} ]
=============================================================================
