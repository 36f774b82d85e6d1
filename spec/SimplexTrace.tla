---------------------------- MODULE SimplexTrace ----------------------------
(* corners integer, points in 1/4, weights and lengths in 1/1024 unless said otherwise *)
EXTENDS Simplex, TraceRun
RStart(ev) == [ x |-> ev.x ]
Wok(w, num, den) == Len(w) = Len(num) /\ \A i \in 1..Len(w) : w[i] # OFF /\ Abs(w[i] * den - 1024 * num[i]) <= Abs(den)
AbsSum(d) == Abs(d[1]) + Abs(d[2]) + Abs(d[3])
WeightFails(st, ev) ==
  (IF Wok(ev.e, EdgeNum(st.x, ev.p), EdgeDen(st.x)) THEN {} ELSE {"edge_coordinates"})
  \cup (IF Wok(ev.t, TriNum(st.x, ev.p), TriDen(st.x)) THEN {} ELSE {"triangle_coordinates"})
  \cup (IF Wok(ev.w, TetNum(st.x, ev.p), TetDen(st.x)) THEN {} ELSE {"tetrahedron_coordinates"})
Kron(i, j) == IF i = j THEN 1 ELSE 0
GradFails(st, ev) ==
  IF Vol6(st.x) < 0 THEN (IF ev.out = "ok" THEN {"inverted_tetrahedron_refused"} ELSE {})
  ELSE IF ev.out # "ok" THEN {"outcome"}
  ELSE IF \A i \in 1..4, a \in 1..4, b \in 1..4 :
            LET d == VSub(st.x[a], st.x[b]) IN OnLattice(ev.g[i]) /\ Abs(VDot(ev.g[i], d) - 1024 * (Kron(i, a) - Kron(i, b))) <= AbsSum(d)
       THEN {} ELSE {"derivatives_of_the_coordinates"}
(* centre in 1/1024 (c), radius in 1/64 (r) *)
CircumFails(st, ev) ==
  LET x == st.x
      eq == \A a \in 1..3 : LET d == VSub(x[a], x[4]) IN Abs(2 * VDot(ev.c, d) - 1024 * (VDot(x[a], x[a]) - VDot(x[4], x[4]))) <= 2 * AbsSum(d)
      e == [a \in 1..3 |-> (ev.c[a] \div 16) - 64 * x[1][a]]
  IN IF ~OnLattice(ev.c) \/ ev.r = OFF THEN {"circumscribed_sphere"}
     ELSE (IF eq THEN {} ELSE {"circumscribed_centre"}) \cup (IF ev.r > 0 /\ Abs(ev.r * ev.r - VDot(e, e)) <= 4 * ev.r + 16 THEN {} ELSE {"circumscribed_radius"})
(* signed distance to each face plane, r > 0 towards the inside for right oriented tetrahedra *)
InFails(st, ev) ==
  LET x == st.x
      ok(a) == LET n == FaceNormal(x, a)  R == ISqrt(256 * VDot(n, n))
                   d == VDot(n, VSub(ev.c, VScale(1024, x[FaceOf(a)[1]])))
               IN (d > 0) = (Vol6(x) > 0) /\ Abs((16 * Abs(d)) \div R - Abs(ev.r)) <= 4 + (Abs(ev.r) \div R) + (8 * AbsSum(n)) \div R
  IN IF OnLattice(ev.c) /\ ev.r # OFF /\ (Vol6(x) > 0 => ev.r > 0) /\ \A a \in 1..4 : ok(a) THEN {} ELSE {"inscribed_sphere"}
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "refuse" THEN (IF ev.out = "ok" THEN {"bad_arguments_refused"} ELSE {})
     ELSE IF ev.op = "grad" THEN GradFails(st, ev)
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "weights" THEN WeightFails(st, ev)
     ELSE IF ev.op = "inside" THEN (IF ev.r = InsideW(ev.w, 64) THEN {} ELSE {"inside_test"})
     ELSE IF ev.op = "volume" THEN (IF ev.v = Vol6(st.x) /\ ev.left = (Vol6(st.x) < 0) THEN {} ELSE {"signed_volume"})
     ELSE IF ev.op = "circum" THEN CircumFails(st, ev)
     ELSE IF ev.op = "inscribed" THEN InFails(st, ev)
     ELSE IF ev.op = "lattice" THEN
            (IF Len(ev.s) = Cardinality(Range(ev.s)) /\ Range(ev.s) = Lattice(ev.n - 1) THEN {} ELSE {"sample_points"})
            \cup (IF Len(ev.i) = Cardinality(Range(ev.i)) /\ Range(ev.i) = InteriorLattice(ev.n - 1) THEN {} ELSE {"interior_sample_points"})
     ELSE {"unknown_event"} ]
=============================================================================
