-------------------------- MODULE ContactSolveTrace --------------------------
(* solve: one contact problem (world, contacts) with the impulses and velocity changes the code computed. *)
(* post: one position projection.   step: a whole simulate() step with its real contact points.           *)
EXTENDS ContactSolve, TraceRun
T == 12            \* tolerance in 1/1024
RStart(ev) == 0
Touches(c, k) == c.A = k \/ c.B = k
SolveFails(ev) ==
  LET cs == ev.cs
      U2 == [k \in 1..Len(ev.bodies) |-> After(ev.bodies[k], ev.du[k])]
      U1 == [k \in 1..Len(ev.bodies) |-> [v |-> VAdd(ev.bodies[k].v, ev.bodies[k].dv), w |-> VAdd(ev.bodies[k].w, ev.bodies[k].dw)]]
      mu(c) == Mu4(ev, c)
      allfree == \A k \in 1..Len(ev.bodies) : ~ev.bodies[k].fixed
      frictionless == \A j \in 1..Len(cs) : mu(cs[j]) = 0
      ext == SumSeq([k \in 1..Len(ev.bodies) |-> MaxN(U2[k].w) + MaxN(U2[k].v)])
      N == Len(cs)
      tolP == T + 4 * N + SumSeq([k \in 1..Len(ev.bodies) |-> ev.bodies[k].m])
  IN (IF \A k \in 1..Len(ev.bodies) : ev.bodies[k].fixed => MaxN(ev.du[k].v) = 0 /\ MaxN(ev.du[k].w) = 0 THEN {} ELSE {"fixed_body_takes_no_impulse"})
     \cup (IF \A k \in 1..Len(ev.bodies) : (\A j \in 1..N : ~Touches(cs[j], k)) => MaxN(ev.du[k].v) = 0 /\ MaxN(ev.du[k].w) = 0 THEN {} ELSE {"untouched_body_takes_no_impulse"})
     \cup (IF allfree => MaxN(Total(ev, ev.du)) <= tolP THEN {} ELSE {"linear_momentum_conserved"})
     \cup (IF allfree => MaxN(TotalAng(ev, ev.du)) <= 6 * tolP THEN {} ELSE {"angular_momentum_conserved"})
     \cup (IF ev.hasx /\ \E j \in 1..N : cs[j].x < 0 THEN {"contacts_only_push"} ELSE {})
     \cup (IF ev.hasx /\ \E j \in 1..N : 4 * cs[j].f > mu(cs[j]) * cs[j].x + 12 THEN {"friction_bounded_by_mu_times_normal"} ELSE {})
     \cup (IF ev.hasx /\ frictionless /\ \E k \in 1..Len(ev.bodies) : ~ev.bodies[k].fixed
                /\ (MaxN(VSub(Impulse(ev.bodies[k], ev.du[k]), NormalImpulse(ev, cs, k))) > tolP
                    \/ MaxN(VSub(AngImpulse(ev.bodies[k], ev.du[k]), NormalAngImpulse(ev, cs, k))) > 6 * tolP) THEN {"impulse_acts_along_the_normal_at_the_contact_point"} ELSE {})
     \cup (IF ev.hasx /\ N = 1 /\ ~ev.bodies[cs[1].B].fixed
           THEN LET c == cs[1]  b == ev.bodies[c.B]  d == ev.du[c.B]
                    P == Impulse(b, d)  Pt == VSub(P, VRDiv(VScale(Dot(P, c.n), c.n), S))
                    tau == VSub(AngImpulse(b, d), Cross(VSub(c.p, b.r), P))
                    vt == LET r == RelVel(ev, c, U2) IN VSub(r, VRDiv(VScale(Dot(r, c.n), c.n), S))
                IN (IF Abs(Dot(P, c.n) - c.x) <= 2 * T THEN {} ELSE {"single_contact_normal_impulse"})
              \cup (IF MaxN(VSub(tau, VRDiv(VScale(Dot(tau, c.n), c.n), S))) <= 6 * T THEN {} ELSE {"single_contact_impulse_acts_at_the_point"})
              \cup (IF ~ev.conv \/ Dot(Pt, vt) + RDiv(Dot(tau, c.n) * RelSpin(c, U2), S) <= 2 * T + MaxN(vt) \div 16 + MaxN(tau) \div 16 THEN {} ELSE {"friction_opposes_slip"})
           ELSE {})
     \cup (IF ~ev.conv THEN {}
           ELSE UNION { LET c == cs[j]  y == Y(ev, c, U2)
                        IN IF AmbiguousPreStab(ev, c) THEN {}
                           ELSE (IF y >= -T - ext \div 128 THEN {} ELSE {"not_approaching_after_the_impulse"})
                             \cup (IF ev.hasx /\ c.x > T /\ y > T + ext \div 128 THEN {"no_push_on_separating_contact"} ELSE {})
                             \cup (IF ev.hasx /\ 4 * c.f < mu(c) * c.x - 4 * T
                                      /\ (LET r == RelVel(ev, c, U2)  vt == VSub(r, VRDiv(VScale(Dot(r, c.n), c.n), S)) IN MaxN(vt) > T + ext \div 128 \/ Abs(RelSpin(c, U2)) > T + ext \div 128)
                                   THEN {"sticks_inside_the_friction_cone"} ELSE {})
                        : j \in 1..N })
     \cup (IF ~ev.conv \/ (\E j \in 1..N : Eps4(ev, cs[j]) # 0) \/ ev.pre
              \/ (\E k \in 1..Len(ev.bodies) : ev.bodies[k].fixed /\ (MaxN(ev.bodies[k].v) > 0 \/ MaxN(ev.bodies[k].w) > 0)) THEN {}
           ELSE IF KE2(ev, U2) <= KE2(ev, U1) + KE2(ev, U1) \div 64 + 400 THEN {} ELSE {"plastic_impact_adds_no_energy"})
PostFails(ev) ==     \* D = displacements; a contact deeper than the minimum is pushed out by its whole gap
  LET cs == ev.cs
      depth(c) == IF c.g < -ev.mingap THEN c.g ELSE 0
      y(c) == Dot(c.n, RelVel(ev, c, ev.du)) + depth(c)
      allfree == \A k \in 1..Len(ev.bodies) : ~ev.bodies[k].fixed
      N == Len(cs)
      tolP == T + 4 * N + SumSeq([k \in 1..Len(ev.bodies) |-> ev.bodies[k].m])
      amb(c) == Abs(c.g + ev.mingap) <= 1
  IN (IF \A k \in 1..Len(ev.bodies) : ev.bodies[k].fixed => MaxN(ev.du[k].v) = 0 /\ MaxN(ev.du[k].w) = 0 THEN {} ELSE {"fixed_body_is_not_projected"})
     \cup (IF allfree => MaxN(Total(ev, ev.du)) <= tolP THEN {} ELSE {"projection_keeps_the_centre_of_mass"})
     \cup (IF \A j \in 1..N : cs[j].x >= 0 /\ cs[j].f = 0 THEN {} ELSE {"projection_only_pushes_along_normals"})
     \cup (IF \E k \in 1..Len(ev.bodies) : ~ev.bodies[k].fixed
                /\ (MaxN(VSub(Impulse(ev.bodies[k], ev.du[k]), NormalImpulse(ev, cs, k))) > tolP
                    \/ MaxN(VSub(AngImpulse(ev.bodies[k], ev.du[k]), NormalAngImpulse(ev, cs, k))) > 6 * tolP) THEN {"projection_acts_along_the_normal"} ELSE {})
     \cup (IF ~ev.conv THEN {}
           ELSE UNION { IF amb(cs[j]) THEN {}
                        ELSE (IF y(cs[j]) >= -T THEN {} ELSE {"penetration_is_removed"})
                          \cup (IF cs[j].x > T /\ y(cs[j]) > T THEN {"projection_pushes_no_further_than_needed"} ELSE {}) : j \in 1..N })
FlatFails(ev) ==
  LET q == ev.q
      amb == Abs(q.g + q.mingap) <= 3
  IN IF amb THEN {}
     ELSE (IF Near(ev.vn, FlatNormal(q), T + (IF q.pre THEN 4 * q.idt ELSE 0)) THEN {} ELSE {"bounce_and_stabilization_velocity"})
     \cup (IF Near(ev.vt, FlatSlide(q), T + 4 + (IF q.pre THEN 4 * q.idt ELSE 0)) THEN {} ELSE {"sliding_friction"})
     \cup (IF Near(ev.side, 0, T) /\ Near(ev.spin, 0, 2 * T) THEN {} ELSE {"flat_box_stays_flat"})
     \cup (IF Near(ev.dn, FlatMove(q), 6) THEN {} ELSE {"stabilization_moves_by_the_gap"})
RStep(st, ev) ==
  [ st |-> st, fails |->
      IF ev.out # "ok" THEN {"outcome"}
      ELSE IF ev.op = "flat" THEN FlatFails(ev)
      ELSE IF ~(\A k \in 1..Len(ev.du) : OnLattice(ev.du[k].v) /\ OnLattice(ev.du[k].w)) THEN {"finite"}
      ELSE IF \/ \E k \in 1..Len(ev.du) : MaxN(ev.du[k].v) > 131072 \/ MaxN(ev.du[k].w) > 131072
              \/ \E j \in 1..Len(ev.cs) : Abs(ev.cs[j].x) > 262144 \/ ev.cs[j].f > 262144
           THEN (IF ev.conv THEN {"converged_impulses_are_bounded"} ELSE {})       \* diverged: nothing is claimed
      ELSE IF ev.op = "solve" THEN SolveFails(ev) ELSE IF ev.op = "post" THEN PostFails(ev) ELSE {"unknown_event"} ]
=============================================================================
