--------------------------- MODULE HingeSolveTrace ---------------------------
EXTENDS HingeSolve, TraceRun
T == 12
RStart(ev) == 0
HingeFails(ev) ==
  LET hs == ev.hs  N == Len(hs)
      U2 == [k \in 1..Len(ev.bodies) |-> After(ev.bodies[k], ev.du[k])]
      U1 == [k \in 1..Len(ev.bodies) |-> [v |-> VAdd(ev.bodies[k].v, ev.bodies[k].dv), w |-> VAdd(ev.bodies[k].w, ev.bodies[k].dw)]]
      allfree == \A k \in 1..Len(ev.bodies) : ~ev.bodies[k].fixed
      aligned == \A j \in 1..N : MaxN(Drift(hs[j])) <= 1
      still == \A k \in 1..Len(ev.bodies) : ev.bodies[k].fixed => MaxN(ev.bodies[k].v) = 0 /\ MaxN(ev.bodies[k].w) = 0
      size == SumSeq([k \in 1..Len(ev.bodies) |-> ev.bodies[k].m])
      ext == SumSeq([k \in 1..Len(ev.bodies) |-> MaxN(U2[k].w) + MaxN(U2[k].v)])
      slack == (IF ev.pre THEN (3 * ev.idt * ev.red4) \div 4 ELSE 0)
      tol == T + ext \div 128 + slack
      tolP == T + 4 * N + size
  IN (IF \A k \in 1..Len(ev.bodies) : (ev.bodies[k].fixed \/ \A j \in 1..N : hs[j].A # k /\ hs[j].B # k) => MaxN(ev.du[k].v) = 0 /\ MaxN(ev.du[k].w) = 0
      THEN {} ELSE {"fixed_or_unjointed_body_takes_no_impulse"})
     \cup (IF allfree => MaxN(Total(ev, ev.du)) <= tolP THEN {} ELSE {"joint_conserves_linear_momentum"})
     \cup (IF allfree /\ aligned => MaxN(TotalAng(ev, ev.du)) <= 8 * tolP THEN {} ELSE {"joint_conserves_angular_momentum"})
     \cup (IF N # 1 \/ ev.bodies[hs[1].A].fixed THEN {}
           ELSE LET h == hs[1]  b == ev.bodies[h.A]  d == ev.du[h.A]  P == Impulse(b, d)
                    tau == VSub(AngImpulse(b, d), Cross(VSub(h.pA, b.r), P))
                IN IF Abs(Dot(tau, h.nA)) <= 6 * tolP + MaxN(tau) \div 64 + MaxN(P) \div 64 THEN {} ELSE {"hinge_turns_freely_about_its_axis"})
     \cup (IF ~ev.conv THEN {}
           ELSE UNION { LET h == hs[j] IN
                  (IF MaxN(VAdd(AnchorVel(ev, h, U2), Pull(ev, Drift(h)))) <= tol THEN {} ELSE {"anchors_move_together"})
             \cup (IF MaxN(VAdd(SpinAcross(h, U2), Perp(h.nA, Pull(ev, Tilt(h))))) <= tol THEN {} ELSE {"only_spin_about_the_axis_remains"}) : j \in 1..N }
             \cup (IF ev.pre \/ ~still \/ KE2(ev, U2) <= KE2(ev, U1) + KE2(ev, U1) \div 64 + 400 THEN {} ELSE {"joint_adds_no_energy"}))
RStep(st, ev) ==
  [ st |-> st, fails |->
      IF ev.out # "ok" THEN {"outcome"}
      ELSE IF ev.op = "drift" THEN     \* after many steps: largest anchor distance and axis misalignment, 1/1024
           (IF ev.gap # OFF /\ ev.gap <= ev.bound THEN {} ELSE {"joint_stays_together"}) \cup (IF ev.tilt # OFF /\ ev.tilt <= ev.bound THEN {} ELSE {"axes_stay_aligned"})
           \cup (IF ev.fixedmoved THEN {"fixed_body_moved"} ELSE {})
      ELSE IF ev.op = "heal" THEN      \* one step at rest with pre-stabilization: what is left of the initial error
           (IF Near(ev.gap1, RDiv(ev.gap0 * (4 - ev.red4), 4), 6 + ev.gap0 \div 16) THEN {} ELSE {"drift_reduced_by_the_chosen_fraction"})
           \cup (IF Near(ev.tilt1, RDiv(ev.tilt0 * (4 - ev.red4), 4), 6 + ev.tilt0 \div 16 + ev.gap0 \div 16) THEN {} ELSE {"tilt_reduced_by_the_chosen_fraction"})
      ELSE IF ~(\A k \in 1..Len(ev.du) : OnLattice(ev.du[k].v) /\ OnLattice(ev.du[k].w)) THEN {"finite"}
      ELSE IF \E k \in 1..Len(ev.du) : MaxN(ev.du[k].v) > 131072 \/ MaxN(ev.du[k].w) > 131072 THEN (IF ev.conv THEN {"converged_impulses_are_bounded"} ELSE {})
      ELSE IF ev.op = "hinge" THEN HingeFails(ev) ELSE {"unknown_event"} ]
=============================================================================
