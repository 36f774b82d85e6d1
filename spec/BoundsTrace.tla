----------------------------- MODULE BoundsTrace -----------------------------
EXTENDS Bounds, TraceRun
(* state of a "bvh" trace: for the trees A and B the mesh, kind of volume and envelope of their last refit *)
RStart(ev) == [A |-> << >>, B |-> << >>, d |-> << >>]
F(ok, name) == IF ok THEN {} ELSE {name}
Tree(ev) == [K |-> ev.K, V |-> ev.V, T |-> ev.T, env |-> ev.env]
Root(t) == IF Len(t.T) = 0 THEN Empty(t.K) ELSE Hull(t.K, UNION { Elem(t.V, t.T[i]) : i \in 1..Len(t.T) }, t.env)
RStep(st, ev) ==
  IF ev.op \in {"make", "refit"} THEN
     LET t == Tree(ev)
     IN [ st |-> IF ev.which = "A" THEN [st EXCEPT !.A = t] ELSE [st EXCEPT !.B = t],
          fails |-> F(ev.out = "ok", "outcome") \cup F(ev.out # "ok" \/ ev.root = Root(t), "root_bounds_the_mesh") \cup F(ev.frozen, "input_unchanged") ]
  ELSE IF ev.op = "traverse" THEN
     [ st |-> st, fails |->
       IF st.A.K # st.B.K THEN F(ev.out = "RuntimeError", "different_kinds_of_volume")
       ELSE IF ev.out # "ok" THEN {"outcome"}
       ELSE LET want == Pairs(st.A.K, st.A.V, st.A.T, st.A.env, st.B.V, st.B.T, st.B.env)
                got == { << ev.res[i][1], ev.res[i][2] >> : i \in 1..Len(ev.res) }
            IN F(want \ got = {}, "missed_pair") \cup F(got \ want = {}, "pair_does_not_overlap") \cup F(Cardinality(got) = Len(ev.res), "pair_reported_twice") ]
  ELSE IF ev.op = "kdop" THEN          \* << slabs >> of make / union, and overlap of two volumes
     [ st |-> st, fails |->
       LET A == Hull(ev.K, Range(ev.P), ev.ea)  B == Hull(ev.K, Range(ev.Q), ev.eb)
       IN F(ev.A = A /\ ev.B = B, "tight_volume") \cup F(ev.U = Union2(A, B), "union") \cup F(ev.over = Over(A, B) /\ ev.over2 = ev.over, "overlap")
          \cup F(ev.mixed = << "RuntimeError", "RuntimeError" >>, "different_kinds_of_volume") ]
  ELSE IF ev.op = "aabb" THEN
     [ st |-> st, fails |->
       LET A == Hull(3, Range(ev.P), 0)  B == Hull(3, Range(ev.Q), 0)
           a == << << A[1][1], A[2][1], A[3][1] >>, << A[1][2], A[2][2], A[3][2] >> >>
           b == << << B[1][1], B[2][1], B[3][1] >>, << B[1][2], B[2][2], B[3][2] >> >>
       IN F(ev.A = a /\ ev.B = b, "tight_box") \cup F(ev.over = BoxOver(a, b, ev.m) /\ ev.over2 = ev.over, "overlap") \cup F(ev.frozen, "input_unchanged") ]
  ELSE IF ev.op = "far" THEN [ st |-> st, fails |-> F(ev.same, "translating_both_changes_nothing") ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
