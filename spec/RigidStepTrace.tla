--------------------------- MODULE RigidStepTrace ---------------------------
(* Recorded time steps.  reset: bodies with mass, inertia and forces; step: the state after it.      *)
EXTENDS RigidStep, TraceRun
RStart(ev) == ev.bodies
Upd(b, a) == [b EXCEPT !.r = a.r, !.q = a.q, !.v = a.v, !.w = a.w]
NearW(a, b, d) == Len(a) = 3 /\ \A i \in 1..3 : Near(a[i], b[i], 6 + d \div 512)
Mag(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
BodyFails(b, a, ev) ==
  IF b.fixed THEN IF a.r = b.r /\ a.q = b.q /\ a.v = b.v /\ a.w = b.w THEN {} ELSE {"fixed_body_never_moves"}
  ELSE IF ~(OnLattice(a.r) /\ OnLattice(a.v) /\ OnLattice(a.w) /\ OnLattice(a.q)) THEN {"state_finite"}
  ELSE (IF UnitQ(a.q) THEN {} ELSE {"orientation_unit"})
    \cup (IF NearV(a.r, NewR(b, a.v, ev.dn, ev.dd), 3) THEN {} ELSE {"position_moves_by_dt_times_new_velocity"})
    \cup (IF Collinear(a.q, NewQDir(b, a.w, ev.dn, ev.dd), 60000) THEN {} ELSE {"orientation_turns_by_dt_times_new_spin"})
    \cup (IF ~ev.free THEN {}
          ELSE (IF NearV(a.v, FreeV(b, ev.dn, ev.dd), 4) THEN {} ELSE {"velocity_changed_by_forces"})
          \cup (IF NearW(a.w, FreeW(b, ev.dn, ev.dd), Mag(DeltaW(b, ev.dn, ev.dd))) THEN {} ELSE {"spin_changed_by_torques"}))
EnergyFails(bs, ev) ==
  LET ke == SumSeq([k \in 1..Len(bs) |-> KE(bs[k])])
      pe == SumSeq([k \in 1..Len(bs) |-> PE(bs[k], ev.gs)])
      m  == SumSeq([k \in 1..Len(bs) |-> IF bs[k].fixed THEN 0 ELSE bs[k].m])
  IN (IF Near(ev.ke, ke, 32 + ke \div 256) THEN {} ELSE {"kinetic_energy"})
     \cup (IF Near(ev.pe, pe, 256 * (m + 1)) THEN {} ELSE {"potential_energy"})
RStep(st, ev) ==
  IF ev.op = "step" THEN
    LET massless == \E k \in 1..Len(st) : ~st[k].fixed /\ st[k].m = 0
        new == [k \in 1..Len(st) |-> Upd(st[k], ev.bodies[k])]
    IN IF massless
       THEN [ st |-> st, fails |-> (IF ev.out = "ValueError" THEN {} ELSE {"massless_free_body_rejected"})
                                   \cup (IF new = st THEN {} ELSE {"rejected_step_changed_the_world"}) ]
       ELSE IF ev.out # "ok" THEN [ st |-> st, fails |-> {"step_outcome"} ]
       ELSE LET f == UNION { BodyFails(st[k], ev.bodies[k], ev) : k \in 1..Len(st) }
            IN [ st |-> new, fails |-> f \cup (IF ev.prof /\ f = {} THEN EnergyFails(new, ev) ELSE {}) ]
  ELSE IF ev.op = "poke" THEN [ st |-> [k \in 1..Len(st) |-> Upd(st[k], ev.bodies[k])], fails |-> {} ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
