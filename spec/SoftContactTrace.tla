-------------------------- MODULE SoftContactTrace --------------------------
EXTENDS SoftContact, TraceRun
CONSTANTS BScale
Tets(m) == m.T        \* sequence of 4-tuples of 1-based node indices
FacesOf(t) == { {t[1], t[2], t[3]}, {t[1], t[2], t[4]}, {t[1], t[3], t[4]}, {t[2], t[3], t[4]} }
BoundaryTets(m) == LET FS == TLCEval([i \in 1..Len(m.T) |-> FacesOf(m.T[i])])
                   IN { i \in 1..Len(m.T) : \E f \in FS[i] : \A j \in 1..Len(m.T) : j # i => f \notin FS[j] }
RStart(ev) == [ env |-> ev.env, res |-> ev.res, mesh |-> ev.mesh, bt |-> TLCEval([i \in 1..Len(ev.mesh) |-> BoundaryTets(ev.mesh[i])]) ]
(* barycentric coordinates w (integers of 1/BScale) of p in tetrahedron t (1-based) of body b *)
At(b, nodes, t, w) == LET q == [k \in 1..4 |-> World(b, nodes[t[k]])]
                      IN [i \in 1..3 |-> (w[1] * q[1][i] + w[2] * q[2][i] + w[3] * q[3][i] + w[4] * q[4][i]) \div BScale]
BaryFails(st, b, k, ti, w, p) ==
  IF ~(ti \in 1..Len(st.mesh[k].T)) THEN {"contact_tetrahedron"}
  ELSE IF ~OnLattice(w) THEN {"barycentric_finite"}
  ELSE (IF ti \in st.bt[k] THEN {} ELSE {"contact_tetrahedron_on_boundary"})
  \cup (IF Abs(SumSeq(w) - BScale) <= 3 THEN {} ELSE {"barycentric_sum"})
  \cup (IF NearV(At(b, st.mesh[k].V, st.mesh[k].T[ti], w), p, 12) THEN {} ELSE {"barycentric_position"})
(* the two tetrahedra come from surface triangles whose bounds, grown by the envelope, overlap *)
Bound(b, nodes, t) == [i \in 1..3 |-> << SetMin({ World(b, nodes[t[k]])[i] : k \in 1..4 }), SetMax({ World(b, nodes[t[k]])[i] : k \in 1..4 }) >>]
TetsNear(st, a, k, tk, b, l, tj) ==
  LET P == Bound(a, st.mesh[k].V, st.mesh[k].T[tk])  Q == Bound(b, st.mesh[l].V, st.mesh[l].T[tj])
      g == 2 * st.env + 2
  IN \A i \in 1..3 : P[i][1] - g <= Q[i][2] /\ Q[i][1] - g <= P[i][2]
ContactFails(st, ev, c) ==
  IF ~(c.A \in 1..Len(ev.bodies) /\ c.B \in 1..Len(ev.bodies)) \/ c.A = c.B THEN {"contact_bodies"}
  ELSE IF ~(OnLattice(c.p) /\ OnLattice(c.n) /\ c.g # OFF) THEN {"contact_finite"}
  ELSE LET a == ev.bodies[c.A]  b == ev.bodies[c.B]
           cell == Cell(a, Boundary(a, st.env), st.res)
           e == Excess(a, c.p)
           F == FaceOf(a, c.p, cell + Slack(a))
           sl == Slack(a)
       IN (IF Abs(Inf(Excess(b, c.p))) <= Slack(b) + 1 THEN {} ELSE {"contact_on_surface_of_B"})
     \cup (IF c.g <= st.env THEN {} ELSE {"contact_within_envelope"})
     \cup (IF c.g >= Inf(e) - sl /\ c.g <= Max2(Inf(e), PosSum(e)) + 2 * cell + sl THEN {} ELSE {"contact_gap_is_distance_to_A"})
     \cup (IF Abs(VDot(c.n, c.n) - 1000000) <= 4000 THEN {} ELSE {"contact_normal_unit"})
     \cup (IF F = {} THEN {}
           ELSE LET k == CHOOSE j \in F : TRUE
                IN (IF Abs(c.g - e[k]) <= sl + 1 THEN {} ELSE {"contact_gap_exact_over_a_face"})
              \cup (IF Parallel(c.n, FaceCovector(a, c.p, k), 24) THEN {} ELSE {"contact_normal_points_from_A_to_B"}))
     \cup BaryFails(st, a, c.A, c.tA, c.wA, c.p)
     \cup (IF ~ev.h \/ ~(c.tA \in 1..Len(st.mesh[c.A].T) /\ c.tB \in 1..Len(st.mesh[c.B].T)) \/ TetsNear(st, a, c.A, c.tA, b, c.B, c.tB) THEN {} ELSE {"contact_tetrahedra_are_close"})
     \cup BaryFails(st, b, c.B, c.tB, c.wB, c.p)
     \cup (IF OnLattice(c.wB) /\ Len(c.wB) = 4 /\ Abs(SetMin(Range(c.wB))) <= (3 * BScale * Slack(b)) \div SetMin({ b.h[i] : i \in 1..3 }) + 2
           THEN {} ELSE {"contact_on_a_triangle_of_its_tetrahedron"})
PairFails(st, ev, i, j) ==
  LET a == ev.bodies[i]  b == ev.bodies[j]
      cell == Cell(a, Boundary(a, st.env), st.res)
      mine == { k \in 1..Len(ev.cs) : { ev.cs[k].A, ev.cs[k].B } = {i, j} }
      shallow == \A c \in Corners(b) : Inf(Excess(a, c)) >= -st.env
  \* under shear the search for the deepest point (Frank-Wolfe on a non-smooth field) may stop early
  IN IF mine # {} \/ ~IsRot(a.M) \/ ~IsRot(b.M) \/ DeepCorners(a, b, st.env, cell + Slack(a)) = {} \/ ~shallow THEN {}
     ELSE {"close_bodies_are_in_contact"}
SameContact(c, d) == c.A = d.A /\ c.B = d.B /\ NearV(c.p, d.p, 1) /\ NearV(c.n, d.n, 2) /\ Near(c.g, d.g, 1)
RStep(st, ev) ==
  IF ev.op = "contacts" THEN
    LET N == Len(ev.bodies)
    IN [ st |-> st,
         fails |-> (IF ev.out = "ok" THEN {} ELSE {"contacts_outcome"})
           \cup UNION { ContactFails(st, ev, ev.cs[k]) : k \in 1..Len(ev.cs) }
           \cup UNION { PairFails(st, ev, ij[1], ij[2]) : ij \in { x \in (1..N) \X (1..N) : x[1] # x[2] } }
           \cup (IF \A k \in 1..Len(ev.cs), l \in 1..Len(ev.cs) : k < l => ~(ev.cs[k].A = ev.cs[l].A /\ ev.cs[k].B = ev.cs[l].B /\ ev.cs[k].pid = ev.cs[l].pid)
                 THEN {} ELSE {"contact_points_distinct"})
           \cup (IF ev.cand \in {-1, Len(ev.cs)} THEN {} ELSE {"only_duplicates_are_removed"})
           \cup (IF ~ev.prof THEN {} ELSE IF ev.logn = Len(ev.cs) THEN {} ELSE {"logged_contact_count"}) ]
  ELSE IF ev.op = "agree" THEN    \* the two broad phases, on the same world
    [ st |-> st,
      fails |-> (IF \A k \in 1..Len(ev.hash) : \E l \in 1..Len(ev.bvh) : SameContact(ev.hash[k], ev.bvh[l]) THEN {} ELSE {"hash_contact_not_found_by_bvh"})
           \cup (IF \A l \in 1..Len(ev.bvh) : \E k \in 1..Len(ev.hash) : SameContact(ev.hash[k], ev.bvh[l]) THEN {} ELSE {"bvh_contact_not_found_by_hash"}) ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
