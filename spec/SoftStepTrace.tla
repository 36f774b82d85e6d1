---------------------------- MODULE SoftStepTrace ----------------------------
(* Steps taken by the real simulator, and the matrices it assembles, against SoftStep. *)
EXTENDS SoftStep, TraceRun
RStart(ev) == [x |-> 0]
OkB(b) == \A e \in 1..Len(b.T) : Vol6(b.V, b.T[e]) \in {1, 2}
(* ---- one step ---- *)
BodyStep(b, P, xe, ue, ev, a) == LET N == Len(b.V) IN
     (IF \A n \in 1..N : a.w[n] = W(b, n - 1) THEN {} ELSE {"weights"})
  \cup (IF a.x0 = b.V THEN {} ELSE {"material_coordinates_changed"})
  \cup (IF \A n \in 1..N : a.fe[n] = Elastic96(b, P, n - 1) THEN {} ELSE {"elastic_force"})
  \cup (IF \A n \in 1..N : a.ft[n] = Traction6(b, xe, n - 1) THEN {} ELSE {"traction_force"})
  \cup (IF \A n \in 1..N : a.fd[n] = Damping120(b, ue, n - 1) THEN {} ELSE {"damping_force"})
  \cup (IF \A n \in 1..N : a.fg[n] = Gravity24(b, n - 1) THEN {} ELSE {"gravity_force"})
  \cup (IF ~b.lumped THEN {}
        ELSE (IF \A n \in 1..N : a.u[n] = NewU320W(b, P, n - 1) THEN {} ELSE {"new_velocity"})
             \cup (IF \A n \in 1..N : a.x[n] = NewX5120W(b, P, n - 1) THEN {} ELSE {"new_position"}))
  \* consistent mass (velocities rounded to 1/16384): every node satisfies its row of M du = dt F, when none is held
  \cup (IF b.lumped THEN {}
        ELSE LET d == TLCEval([n \in 1..N |-> VSub(a.ur[n], VScale(16384, ue[n]))]) IN
             (IF (\E n \in 1..N : Held(b, n - 1)) \/ \A n \in 1..N : NearV(MassTimes(b, d, n - 1), VScale(256, Force480(b, P, n - 1)), 6 * W(b, n - 1) + 8) THEN {} ELSE {"new_velocity_consistent_mass"})
             \cup (IF \A n \in 1..N : Held(b, n - 1) => a.ur[n] = VZero THEN {} ELSE {"held_node_moves"})
             \cup (IF \A n \in 1..N : IF IsDir(b, n - 1) THEN a.xr[n] = VScale(16384, DirVal(b, n - 1))
                                      ELSE NearV(VScale(16, VSub(a.xr[n], VScale(16384, xe[n]))), a.ur[n], 20) THEN {} ELSE {"new_position"}))
StepFails(ev) ==
  IF ~ \A i \in 1..Len(ev.bodies) : Upright(ev.bodies[i])
  THEN (IF ev.out = "RuntimeError" THEN {} ELSE {"inverted_element_must_be_rejected"})
       \cup (IF ev.same THEN {} ELSE {"failed_step_changed_a_body"})
  ELSE IF ev.out # "ok" /\ ~(ev.out = "RuntimeError" /\ ev.debug /\ ~ev.up) THEN {"step_outcome"}   \* no energy to log for an inverted element
  ELSE (IF ev.logs THEN {} ELSE {"logged_energies"}) \cup
       UNION { LET b == ev.bodies[i]  xe == XEff(b)  ue == UEff(b)  P == P16s(b, xe) IN
         IF ~OkB(b) THEN {"machinery"} ELSE BodyStep(b, P, xe, ue, ev, ev.after[i]) : i \in 1..Len(ev.bodies) }
EnergyFails(ev) == LET S(F(_)) == SumSeq([i \in 1..Len(ev.bodies) |-> F(ev.bodies[i])]) IN
     (IF ev.ke = S(Kinetic192) THEN {} ELSE {"kinetic_energy"})
  \cup (IF ev.pe = S(Potential24) THEN {} ELSE {"potential_energy"})
  \cup (IF ev.ee = S(Elastic768) THEN {} ELSE {"elastic_energy"})
(* ---- assembly ---- *)
OwnerOf(ev, n) == CHOOSE i \in 1..Len(ev.bodies) : n >= ev.bodies[i].off /\ n < ev.bodies[i].off + Len(ev.bodies[i].V)
Mass120(b, i, j) ==
  SumSeq([e \in 1..Len(b.T) |-> IF Inside(i, b.T[e]) /\ Inside(j, b.T[e])
            THEN (IF b.lumped THEN (IF i = j THEN 5 ELSE 0) ELSE (IF i = j THEN 2 ELSE 1)) * b.rho * Vol6(b.V, b.T[e]) ELSE 0])
MassFails(ev) == LET N == SumSeq([i \in 1..Len(ev.bodies) |-> Len(ev.bodies[i].V)]) own == TLCEval([n \in 0..(N - 1) |-> OwnerOf(ev, n)]) IN
  IF Len(ev.M) = N /\ \A i, j \in 0..(N - 1) : ev.M[i + 1][j + 1] =
       (IF own[i] # own[j] THEN 0 ELSE LET b == ev.bodies[own[i]] IN Mass120(b, i - b.off, j - b.off))
  THEN {} ELSE {"mass_matrix"}
(* contact k: coefficient (quarters) with which the velocity of global node n enters the relative velocity of B against A *)
Coef(ev, c, n) == LET A == ev.bodies[c.a]  B == ev.bodies[c.b] IN
  SumSeq([q \in 1..4 |-> (IF B.off + B.T[c.tb][q] = n THEN c.wb[q] ELSE 0) - (IF A.off + A.T[c.ta][q] = n THEN c.wa[q] ELSE 0)])
K4096 == 4096
RowFails(ev, k) == LET c == ev.contacts[k]  N == SumSeq([i \in 1..Len(ev.bodies) |-> Len(ev.bodies[i].V)])
                       co == TLCEval([n \in 0..(N - 1) |-> Coef(ev, c, n)])  J(r, n) == ev.J[4 * (k - 1) + r][n + 1]
                       m == CHOOSE n \in 0..(N - 1) : \A q \in 0..(N - 1) : Abs(co[q]) <= Abs(co[n]) IN
     (IF \A n \in 0..(N - 1), a \in 1..3 : Abs(J(1, n)[a] * c.len - co[n] * K4096 * c.n[a]) <= 2 * c.len THEN {} ELSE {"normal_row"})
  \cup (IF \A r \in 2..3 : /\ \A n \in 0..(N - 1), a \in 1..3 : Abs(J(r, n)[a] * co[m] - J(r, m)[a] * co[n]) <= 16
                           /\ Abs(VDot(J(r, m), J(r, m)) - co[m] * co[m] * K4096 * K4096) <= 16 * K4096 * co[m] * co[m]
                           /\ Abs(VDot(J(r, m), c.n)) <= 8 * c.len THEN {} ELSE {"tangent_row"})
  \cup (IF Abs(VDot(J(2, m), J(3, m))) <= 16 * K4096 * co[m] * co[m] THEN {} ELSE {"tangents_orthogonal"})
  \cup (IF \A n \in 0..(N - 1) : J(4, n) = VZero THEN {} ELSE {"fourth_row"})
Pair(a, b, x) == (x.a = a /\ x.b = b) \/ (x.a = b /\ x.b = a)
Mu4(ev, a, b) == IF \E i \in 1..Len(ev.inter) : Pair(a, b, ev.inter[i]) THEN ev.inter[CHOOSE i \in 1..Len(ev.inter) : Pair(a, b, ev.inter[i])].mu ELSE 4
AssembleFails(ev) == IF ev.out # "ok" THEN {"assembly_outcome"} ELSE
     MassFails(ev)
  \cup (IF Len(ev.J) = 4 * Len(ev.contacts) THEN UNION { RowFails(ev, k) : k \in 1..Len(ev.contacts) } ELSE {"number_of_rows"})
  \cup (IF \A k \in 1..Len(ev.contacts) : LET c == ev.contacts[k] IN ev.mu[k] = Mu4(ev, ev.bodies[c.a].mat, ev.bodies[c.b].mat) THEN {} ELSE {"friction_coefficients"})
  \cup (IF ev.pen = Max2(0, SetMax({ -ev.contacts[k].g : k \in 1..Len(ev.contacts) })) THEN {} ELSE {"largest_penetration"})
RStep(st, ev) == [ st |-> st, fails |-> CASE ev.op = "step" -> StepFails(ev) [] ev.op = "energy" -> EnergyFails(ev) [] ev.op = "assemble" -> AssembleFails(ev)
                                          [] OTHER -> {"unknown_event"} ]
=============================================================================
