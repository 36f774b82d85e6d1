--------------------------- MODULE ProxSolverTrace ---------------------------
(* kind "script": a solver whose sweeps follow a script (exact).  kind "real": one of the four schemes   *)
(* on a contact problem; every sweep is compared with the specified one, and the returned solution is    *)
(* judged by the complementarity conditions.                                                            *)
EXTENDS ProxSolver, TraceRun
RStart(ev) == [ s |-> NewSolver(IF ev.kind = "script" THEN ev.n ELSE 0), ev |-> ev, n |-> 0, prev |-> << >> ]
TOL == 16
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], TOL + Abs(b[i]) \div 256)
Small(v) == \A i \in 1..Len(v) : Abs(v[i]) <= 32768
Feasible(p, x, cone) == \A k \in 1..p.K : LET o == 4 * (k - 1)  R == IF p.fr = "origin" THEN 0 ELSE (x[o + 1] * p.mu[k]) \div 8
   IN x[o + 1] >= 0 /\ (cone => VDot([i \in 1..3 |-> x[o + 1 + i] \div 4], [i \in 1..3 |-> x[o + 1 + i] \div 4]) <= (R \div 4 + 3) * (R \div 4 + 3))
SweepFails(st, ev) ==
  LET p == st.ev.p  sch == st.ev.scheme
  IN IF ~(OnLattice(ev.x) /\ OnLattice(ev.x0)) THEN {"finite"}
     ELSE IF ~(Small(ev.x) /\ Small(ev.x0) /\ \A i \in 1..Len(ev.r) : ev.r[i] <= 65536) THEN {}
     ELSE (IF sch = "gauss_seidel" THEN (IF Close(ev.x, GaussSeidel(p, ev.r, ev.x0, [k \in 1..p.K |-> k])) THEN {} ELSE {"gauss_seidel_sweep"})
      ELSE IF sch = "parallel_gauss_seidel" THEN (IF \E o \in Orders(p.K) : Close(ev.x, GaussSeidel(p, ev.r, ev.x0, o)) THEN {} ELSE {"parallel_sweep_is_a_gauss_seidel_sweep"})
      ELSE IF sch = "parallel_jacobi" THEN (IF Close(ev.x, Jacobi(p, ev.r, ev.x0, FALSE)) THEN {} ELSE {"jacobi_sweep"})
      ELSE IF Close(ev.x, Jacobi(p, ev.r, ev.x0, TRUE)) THEN {} ELSE {"hybrid_sweep"})
     \cup (IF Feasible(p, ev.x, sch # "parallel_jacobi") THEN {} ELSE {"contact_forces_push_and_stay_in_the_friction_cone"})
     \cup (IF st.n > 0 \/ \A i \in 1..Len(ev.r) : Near(ev.r[i], LET d == p.A[i][i] IN IF d = 0 THEN 6554 ELSE (26214 + d \div 2) \div d, 2) THEN {} ELSE {"initial_r_factor"})
     \cup (IF st.n > 0 \/ \A i \in 1..Len(ev.x0) : ev.x0[i] = 0 THEN {} ELSE {"starts_from_zero"})
Residual(p, x, i) == RowDot(p.A[i], x) + p.b[i]
SolvedFails(p, x) ==      \* complementarity of the returned solution, when the solver converged tightly
  UNION { LET o == 4 * (k - 1)  y == [i \in 1..4 |-> Residual(p, x, o + i)]
              slack == 24 + SetMax({ Abs(p.A[o + i][j]) : i \in 1..4, j \in 1..Len(x) }) * 8
              R == (x[o + 1] * p.mu[k]) \div 8
              f == [i \in 1..3 |-> x[o + 1 + i] \div 4]
              g == [i \in 1..3 |-> y[i + 1] \div 4]
              inside == 4 * ISqrt(VDot(f, f)) < R - slack
          IN (IF y[1] >= -slack THEN {} ELSE {"no_approach_left"})
             \cup (IF x[o + 1] > slack => Abs(y[1]) <= slack THEN {} ELSE {"normal_complementarity"})
             \cup (IF p.fr = "sphere" /\ inside => \A i \in 2..4 : Abs(y[i]) <= slack THEN {} ELSE {"sticks_inside_the_cone"})
             \cup (IF p.fr = "sphere" /\ R > 64 /\ ISqrt(VDot(g, g)) > slack => VDot(f, g) <= 0 THEN {} ELSE {"friction_opposes_slip"}) : k \in 1..p.K }
RStep(st, ev) ==
  IF ev.op = "it" THEN
    [ st |-> [st EXCEPT !.s = IF @.exit = -1 THEN Iterate(@, ev.x, st.ev.c) ELSE @],
      fails |-> (IF st.s.exit = -1 THEN {} ELSE {"swept_after_the_solver_should_have_stopped"})
        \cup (IF ev.x0 = st.s.x THEN {} ELSE {"rejected_sweep_is_rolled_back"})
        \cup (IF ev.sol = st.s.sol THEN {} ELSE {"accepted_solution"})
        \cup (IF \A i \in 1..Len(ev.r) : ev.r[i] = st.s.r THEN {} ELSE {"r_factor"}) ]
  ELSE IF ev.op = "exit" THEN
    LET s == st.s  c == st.ev.c  pad(q, z) == [i \in 1..c.max |-> IF i <= Len(q) THEN q[i] ELSE z]
    IN [ st |-> st,
         fails |-> (IF ev.out = "ok" THEN {} ELSE {"solve_outcome"})
           \cup (IF s.exit # -1 THEN {} ELSE {"stopped_too_early"})
           \cup (IF ev.sol = s.sol THEN {} ELSE {"returns_the_last_accepted_iterate"})
           \cup (IF ev.nolog THEN {} ELSE {"nothing_logged_without_debugging"})
           \cup (IF ~ev.debug \/ (ev.exitcode = s.exit /\ ev.iterations = (IF s.exit = 0 THEN c.max ELSE s.it)) THEN {} ELSE {"logged_exit"})
           \cup (IF ~ev.debug \/ ev.res = pad(s.res, INF) THEN {} ELSE {"logged_residuals"})
           \cup (IF ~ev.debug \/ ev.rej = pad(s.rej, FALSE) THEN {} ELSE {"logged_rejections"})
           \cup (IF ~ev.debug \/ ev.lam = pad(s.lam, [i \in 1..st.ev.n |-> 0]) THEN {} ELSE {"logged_iterates"}) ]
  ELSE IF ev.op = "sweep" THEN [ st |-> [st EXCEPT !.n = @ + 1], fails |-> SweepFails(st, ev) ]
  ELSE IF ev.op = "done" THEN
    [ st |-> st,
      fails |-> IF ev.out # (IF st.ev.scheme = "unknown" THEN "NotImplementedError" ELSE "ok") THEN {"scheme_outcome"}
        ELSE IF st.ev.scheme = "unknown" THEN {}
        ELSE IF ~OnLattice(ev.sol) THEN {"finite"}
        ELSE (IF ev.keys THEN {} ELSE {"log_prefix"})
        \cup (IF Feasible(st.ev.p, ev.sol, st.ev.scheme # "parallel_jacobi") THEN {} ELSE {"contact_forces_push_and_stay_in_the_friction_cone"})
        \cup (IF ~ev.tight \/ ~Small(ev.sol) THEN {} ELSE SolvedFails(st.ev.p, ev.sol))
        \cup (IF ev.threads THEN {} ELSE {"result_independent_of_the_number_of_threads"}) ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
