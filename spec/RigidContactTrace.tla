-------------------------- MODULE RigidContactTrace --------------------------
EXTENDS RigidContact, TraceRun
RStart(ev) == [ env |-> ev.env, res |-> ev.res ]
ContactFails(st, ev, c) ==
  IF ~(c.A \in 1..Len(ev.bodies) /\ c.B \in 1..Len(ev.bodies)) \/ c.A = c.B THEN {"contact_bodies"}
  ELSE IF ~(OnLattice(c.p) /\ OnLattice(c.n) /\ c.g # OFF) THEN {"contact_finite"}
  ELSE LET a == ev.bodies[c.A]  b == ev.bodies[c.B]
           cell == Cell(a, Boundary(a, st.env), st.res)
           e == Excess(a, c.p)
           F == FaceOf(a, c.p, cell)
       IN (IF Abs(Inf(Excess(b, c.p))) <= 2 THEN {} ELSE {"contact_on_surface_of_B"})
     \cup (IF c.g <= st.env THEN {} ELSE {"contact_within_envelope"})
     \cup (IF c.g >= Inf(e) - 2 /\ c.g <= Max2(Inf(e), PosSum(e)) + 2 * cell + 2 THEN {} ELSE {"contact_gap_is_distance_to_A"})
     \cup (IF Abs(VDot(c.n, c.n) - 1000000) <= 4000 THEN {} ELSE {"contact_normal_unit"})
     \cup (IF F = {} THEN {}
           ELSE LET k == CHOOSE j \in F : TRUE
                IN (IF Abs(c.g - e[k]) <= 3 THEN {} ELSE {"contact_gap_exact_over_a_face"})
              \cup (IF NearV(c.n, FaceNormal(a, c.p, k), 12) THEN {} ELSE {"contact_normal_points_from_A_to_B"}))
PairFails(st, ev, i, j) ==     \* a corner of j certainly lies within the envelope of i
  LET a == ev.bodies[i]  b == ev.bodies[j]
      cell == Cell(a, Boundary(a, st.env), st.res)
      mine == { k \in 1..Len(ev.cs) : { ev.cs[k].A, ev.cs[k].B } = {i, j} }
      \* deep mutual penetration is out of scope: the candidates are surface triangles that are near each other
      shallow == \A c \in Corners(b) : Inf(Excess(a, c)) >= -st.env
  IN IF DeepCorners(a, b, st.env, cell) = {} \/ ~shallow THEN {}
     ELSE IF mine = {} THEN {"close_bodies_are_in_contact"} ELSE {}
RStep(st, ev) ==
  IF ev.op = "contacts" THEN
    LET N == Len(ev.bodies)
    IN [ st |-> st,
         fails |-> (IF ev.out = "ok" THEN {} ELSE {"contacts_outcome"})
           \cup UNION { ContactFails(st, ev, ev.cs[k]) : k \in 1..Len(ev.cs) }
           \cup UNION { PairFails(st, ev, ij[1], ij[2]) : ij \in { x \in (1..N) \X (1..N) : x[1] # x[2] } }
           \cup (IF \A k \in 1..Len(ev.cs), l \in 1..Len(ev.cs) : k < l => ~({ ev.cs[k].A, ev.cs[k].B } = { ev.cs[l].A, ev.cs[l].B } /\ ev.cs[k].pid = ev.cs[l].pid)
                 THEN {} ELSE {"contact_points_distinct"})
           \cup (IF ev.cand \in {-1, Len(ev.cs)} THEN {} ELSE {"only_duplicates_are_removed"})
           \cup (IF ~ev.prof THEN {}
                 ELSE LET pen == IF Len(ev.cs) = 0 THEN 0 ELSE Max2(0, -SetMin({ ev.cs[k].g : k \in 1..Len(ev.cs) }))
                      IN (IF Near(ev.maxpen, pen, 1) THEN {} ELSE {"logged_penetration"})
                    \cup (IF ev.logn = Len(ev.cs) THEN {} ELSE {"logged_contact_count"})) ]
  ELSE IF ev.op = "same" THEN
    [ st |-> st, fails |-> IF Len(ev.a) = Len(ev.b) /\ NearV(ev.a, ev.b, ev.tol) THEN {} ELSE {ev.what} ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
