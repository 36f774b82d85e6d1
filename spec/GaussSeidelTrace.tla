--------------------------- MODULE GaussSeidelTrace ---------------------------
(* reset: sizes of the problems, parameters.  sweep: problem k moved its iterate to x while its        *)
(* accepted solution was sol and its R-factor 2^r.  exit: what solve() left and logged.               *)
EXTENDS GaussSeidel, TraceRun
RStart(ev) == [ s |-> NewSolver(ev.sizes), c |-> ev.c, k |-> 0, xs |-> << >> ]
RStep(st, ev) ==
  IF ev.op = "sweep" THEN
    LET n == Len(st.s.ps)
        done == st.k = n                       \* the round is complete: the solver judged it
        s1 == IF done THEN Iterate(st.s, st.xs, st.c) ELSE st.s
        k1 == IF done THEN 1 ELSE st.k + 1
        xs1 == IF done THEN << ev.x >> ELSE Append(st.xs, ev.x)
        \* what this problem must look like when its sweep starts
        p == s1.ps[k1]
    IN [ st |-> [ st EXCEPT !.s = s1, !.k = k1, !.xs = xs1 ],
         fails |-> (IF ev.k = k1 THEN {} ELSE {"problems_swept_in_order"})
           \cup (IF s1.exit = -1 THEN {} ELSE {"swept_after_the_solver_should_have_stopped"})
           \cup (IF ev.x0 = p.x THEN {} ELSE {"rejected_sweep_is_rolled_back"})
           \cup (IF ev.sol = p.sol THEN {} ELSE {"accepted_solution"})
           \cup (IF ev.r = p.r THEN {} ELSE {"r_factor"}) ]
  ELSE IF ev.op = "exit" THEN
    LET n == Len(st.s.ps)
        full == st.k = n
        s1 == IF full THEN Iterate(st.s, st.xs, st.c) ELSE st.s
    IN [ st |-> [ st EXCEPT !.s = s1 ],
         fails |-> (IF ev.out = "ok" THEN {} ELSE {"solve_outcome"})
           \cup (IF full /\ s1.exit # -1 THEN {} ELSE {"stopped_too_early"})
           \cup (IF \A k \in 1..n : ev.sol[k] = s1.ps[k].sol /\ ev.x[k] = s1.ps[k].x /\ ev.r[k] = s1.ps[k].r THEN {} ELSE {"final_solution_is_the_last_accepted"})
           \cup (IF ~ev.prof \/ (full /\ s1.exit # -1 /\ ev.exitcode = s1.exit /\ ev.iterations = s1.it) THEN {} ELSE {"logged_exit"})
           \cup (IF ~ev.prof \/ (Len(ev.res) = st.c.max /\ \A i \in 1..Len(ev.res) : ev.res[i] = (IF i <= Len(s1.res) THEN s1.res[i] ELSE INF)) THEN {} ELSE {"logged_residuals"})
           \cup (IF ev.keys = ev.prof THEN {} ELSE {"nothing_logged_without_profiling"}) ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
