----------------------- MODULE SoftContactSolveTrace ------------------------
(* step: one time step with prescribed contacts.  nodes hold the velocities the step would have        *)
(* without contacts; u2 the velocities after; dx what the positions moved beyond dt * u2 (the          *)
(* stabilization); ends and conv the two solves' outcomes.                                             *)
EXTENDS SoftContactSolve, TraceRun
T == 12
RStart(ev) == 0
Sgn(x) == IF x < 0 THEN -1 ELSE 1
StepFails(ev) ==
  LET nodes == ev.nodes  cs == ev.cs  N == Len(nodes)  K == Len(cs)
      U1 == Vel(nodes)
      U2 == TLCEval([i \in 1..N |-> ev.u2[i]])
      DP == TLCEval([i \in 1..N |-> VScale(nodes[i].m, VSub(U2[i], U1[i]))])
      allfree == \A i \in 1..N : ~nodes[i].fixed
      tolP == T + N * 4
      ext == SumSeq([i \in 1..N |-> MaxN(U2[i])]) \div 64
      y2(c) == Dot(c.n, Rel(c, U2))
  IN (IF \A i \in 1..N : nodes[i].fixed => U2[i] = VZero /\ ev.dx[i] = VZero THEN {} ELSE {"constrained_node_takes_no_impulse"})
  \cup (IF \A i \in 1..N : (\A k \in 1..K : ~Touches(cs[k], i)) => MaxN(VSub(U2[i], U1[i])) <= 1 /\ MaxN(ev.dx[i]) <= 1 THEN {} ELSE {"untouched_node_takes_no_impulse"})
  \cup (IF allfree => MaxN(VSub(Momentum(nodes, U2), Momentum(nodes, U1))) <= tolP THEN {} ELSE {"momentum_conserved"})
  \cup (IF allfree /\ ev.meet => MaxN([d \in 1..3 |-> SumSeq([i \in 1..N |-> RDiv(VCross(nodes[i].x, DP[i])[d], S)])]) <= 8 * tolP THEN {} ELSE {"angular_momentum_conserved"})
  \cup (IF ~ev.conv THEN {} ELSE
          (IF \A k \in 1..K : Compliance(nodes, cs[k]) = 0 \/ y2(cs[k]) >= -T - ext \div 8 THEN {} ELSE {"not_approaching_after_the_impulse"})
     \cup (IF KE2(nodes, U2) <= KE2(nodes, U1) + KE2(nodes, U1) \div 64 + 64 THEN {} ELSE {"no_energy_gained"}))
  \cup (IF K # 1 THEN {} ELSE
        LET c == cs[1]
            \* the impulse on B, from a node of B (or A) with the largest share
            free == { i \in 1..N : ~nodes[i].fixed /\ Share(c, i) # 0 }
            i0 == CHOOSE i \in free : \A j \in free : Abs(Share(c, j)) <= Abs(Share(c, i))
            P == VRDiv(VScale(4 * Sgn(Share(c, i0)), DP[i0]), Abs(Share(c, i0)))
            pn == Dot(c.n, P)  pt == Tangential(c, P)  vt == Tangential(c, Rel(c, U2))
            y1 == Dot(c.n, Rel(c, U1))
            tlp == T + MaxN(P) \div 64
        IN IF free = {} THEN {} ELSE
           (IF \A i \in 1..N : nodes[i].fixed \/ MaxN(VSub(DP[i], VRDiv(VScale(Share(c, i), P), 4))) <= tlp THEN {} ELSE {"impulse_spread_by_barycentric_weights"})
        \cup (IF pn >= -T THEN {} ELSE {"contact_only_pushes"})
        \cup (IF VDot(VRDiv(pt, 4), VRDiv(pt, 4)) <= LET r == (c.mu4 * Max2(0, pn) + 4 * T) \div 16 IN (r + 2) * (r + 2) THEN {} ELSE {"friction_bounded_by_mu_times_normal"})
        \cup (IF ~ev.conv THEN {} ELSE
               (IF y1 > T => MaxN(P) <= T THEN {} ELSE {"separating_contact_takes_no_impulse"})
          \cup (IF pn > T => Abs(y2(c)) <= T + ext THEN {} ELSE {"pushing_contact_does_not_separate"})
          \cup (IF c.mu4 = 0 => Abs(pn - SingleImpulse(nodes, c, y1)) <= T + Abs(pn) \div 32 THEN {} ELSE {"frictionless_impulse_value"})
          \cup (IF Dot(pt, vt) <= T + MaxN(vt) \div 16 + MaxN(pt) \div 16 THEN {} ELSE {"friction_opposes_slip"})
          \cup (IF pn > T /\ 4 * MaxN(pt) * 2 < c.mu4 * pn - 16 * T => MaxN(vt) <= T + ext THEN {} ELSE {"sticks_inside_the_friction_cone"})))
  \cup (IF ~ev.post THEN (IF \A i \in 1..N : MaxN(ev.dx[i]) <= 1 THEN {} ELSE {"position_moves_by_the_velocity"})
        ELSE LET D == TLCEval([i \in 1..N |-> ev.dx[i]])
                 deep(c) == c.g < -ev.mingap
                 amb(c) == Abs(c.g + ev.mingap) <= 1
                 y(c) == Dot(c.n, Rel(c, D)) + (IF deep(c) THEN c.g ELSE 0)
             IN (IF allfree => MaxN(Momentum(nodes, D)) <= tolP THEN {} ELSE {"projection_keeps_the_centre_of_mass"})
           \cup (IF (\A k \in 1..K : ~deep(cs[k])) /\ (\A k \in 1..K : ~amb(cs[k])) => \A i \in 1..N : MaxN(D[i]) <= 1 THEN {} ELSE {"no_projection_without_penetration"})
           \cup (IF ev.pconv => \A k \in 1..K : amb(cs[k]) \/ Compliance(nodes, cs[k]) = 0 \/ y(cs[k]) >= -T THEN {} ELSE {"penetration_is_removed"})
           \cup (IF ev.pconv /\ K = 1 /\ deep(cs[1]) /\ ~amb(cs[1]) /\ Compliance(nodes, cs[1]) # 0 => Abs(y(cs[1])) <= T THEN {} ELSE {"projection_pushes_no_further_than_needed"})
           \cup (IF K = 1 => \A i \in 1..N : MaxN(Tangential(cs[1], D[i])) <= T THEN {} ELSE {"projection_acts_along_the_normal"}))
RStep(st, ev) ==
  [ st |-> st, fails |->
      IF ev.out # "ok" THEN {"outcome"}
      ELSE IF ~(\A i \in 1..Len(ev.u2) : OnLattice(ev.u2[i]) /\ OnLattice(ev.dx[i])) THEN {"finite"}
      ELSE IF \E i \in 1..Len(ev.u2) : MaxN(ev.u2[i]) > 32768 \/ MaxN(ev.dx[i]) > 32768
           THEN (IF ev.conv THEN {"converged_impulses_are_bounded"} ELSE {})
      ELSE IF ev.op = "step" THEN StepFails(ev) ELSE {"unknown_event"} ]
=============================================================================
