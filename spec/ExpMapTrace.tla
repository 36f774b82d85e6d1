----------------------------- MODULE ExpMapTrace ----------------------------
(* quaternions and matrices in 1/4096, vectors (log, dvdt) in 1/1024, derivatives in 1/256              *)
EXTENDS ExpMap, TraceRun
RStart(ev) == [ m |-> ev.m, L |-> ev.L, k |-> ev.k ]
QuatIs(q, k, m, L, tol) == /\ OnLattice(q) /\ Abs(q[1] - CosH(k)) <= tol
                           /\ \A i \in 1..3 : Abs(q[i + 1] * L - SinH(k) * m[i]) <= tol * L
Quarters(v, m, L) ==   \* the number of quarter turns of a measured vector along the axis, or 1000
  LET c == SetMax({ Abs(v[i]) : i \in 1..3 })
      S == { j \in -9..9 : \A i \in 1..3 : Abs(v[i] * L - Theta(j) * m[i]) <= 3 * L }
  IN IF OnLattice(v) /\ S # {} THEN CHOOSE j \in S : TRUE ELSE 1000
ExpFails(st, ev) ==
  LET k == st.k  m == st.m  L == st.L
      j == Quarters(ev.rep, m, L)
  IN (IF QuatIs(ev.exact, k, m, L, 3) THEN {} ELSE {"exponential"})
     \cup (IF QuatIs(ev.exp, k, m, L, 3) \/ QuatIs(ev.exp, k + 4, m, L, 3) THEN {} ELSE {"exponential_of_reparameterized"})
     \cup (IF \A i \in 1..9 : ev.mat[i] # OFF /\ Abs(ev.mat[i] * L * L - 4096 * RotL2(k, m, L)[i]) <= 4 * L * L THEN {} ELSE {"matrix_of_rotation_vector"})
     \cup (IF j # 1000 /\ (k - j) % 4 = 0 /\ Abs(j) <= 2 /\ ev.same THEN {} ELSE {"reparameterization"})
LogFails(st, ev) ==
  IF ev.out # "ok" THEN {"logarithm"}
  ELSE LET j == Quarters(ev.v, st.m, st.L) IN IF j # 1000 /\ (st.k - j) % 4 = 0 /\ Abs(j) <= 4 THEN {} ELSE {"logarithm"}
RateFails(st, ev) ==   \* (L^2 theta J) vdot = L^2 theta omega
  LET k == st.k  m == st.m  L == st.L
      e == MApp(JacL2(k, m, L), ev.v)
  IN IF ~OnLattice(ev.v) THEN {"rate_of_rotation_vector"}
     ELSE IF k = 0 THEN (IF \A i \in 1..3 : Abs(ev.v[i] - 1024 * ev.w[i]) <= 2 THEN {} ELSE {"rate_of_rotation_vector"})
     ELSE (IF \A i \in 1..3 : Abs(e[i] - L * L * Theta(k) * 1024 * ev.w[i]) <= 4 * L * L * Theta(k) + 2 * L * L * 1024 THEN {} ELSE {"rate_of_rotation_vector"})
DQFails(st, ev) ==
  LET k == st.k  m == st.m  L == st.L  th == Theta(k)
      mi == m[ev.i]
      \* 16 * theta * L^2 * dq, in 1/1024 * 1/256
      e(a) == ((SinH(k) * 64) * ((IF a = ev.i THEN L * L ELSE 0) - mi * m[a])) + (th * CosH(k) * mi * m[a]) \div 32
  IN IF ~OnLattice(ev.d) THEN {"quaternion_derivative"}
     ELSE (IF Abs(ev.d[1] * L * 32 + SinH(k) * mi) <= 32 * L THEN {} ELSE {"quaternion_derivative"})
          \cup (IF k = 0 THEN (IF \A a \in 1..3 : Abs(ev.d[a + 1] - (IF a = ev.i THEN 128 ELSE 0)) <= 1 THEN {} ELSE {"quaternion_derivative"})
                ELSE (IF \A a \in 1..3 : Abs(ev.d[a + 1] * th * L * L - e(a)) <= 2 * th * L * L + 1024 THEN {} ELSE {"quaternion_derivative"}))
DRFails(st, ev) ==
  LET k == st.k  m == st.m  L == st.L
      J == JacL2(k, m, L)
      w == << J[ev.i], J[3 + ev.i], J[6 + ev.i] >>      \* L^2 theta J e_i
      e == MMul(MCross(w), RotL2(k, m, L))              \* L^4 theta dR, in 1/1024
  IN IF ~OnLattice(ev.d) THEN {"matrix_derivative"}
     ELSE IF k = 0 THEN (IF \A i \in 1..9 : Abs(ev.d[i] - 256 * MCross(Unit(ev.i))[i]) <= 1 THEN {} ELSE {"matrix_derivative"})
     ELSE (IF \A i \in 1..9 : Abs(ev.d[i] * Theta(k) * L * L * L * L - 256 * e[i]) <= 2 * Theta(k) * L * L * L * L THEN {} ELSE {"matrix_derivative"})
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "log" THEN LogFails(st, ev)
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "exp" THEN ExpFails(st, ev)
     ELSE IF ev.op = "rate" THEN RateFails(st, ev)
     ELSE IF ev.op = "dq" THEN DQFails(st, ev)
     ELSE IF ev.op = "dr" THEN DRFails(st, ev)
     ELSE IF ev.op = "tiny" THEN (IF OnLattice(ev.v) /\ \A i \in 1..3 : Abs(ev.v[i] * st.L - 2048 * st.m[i]) <= 3 * st.L THEN {} ELSE {"exponential_of_short_vector"})
     ELSE IF ev.op = "unit" THEN (IF ev.v = << 0, 0, 0 >> THEN {} ELSE {"logarithm_of_identity"})
     ELSE {"unknown_event"} ]
=============================================================================
