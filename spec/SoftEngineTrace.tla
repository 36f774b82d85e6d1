---------------------------- MODULE SoftEngineTrace ----------------------------
(* Recorded calls on a real soft-body engine against SoftEngine!Apply.  Each event carries the call, whether it was  *)
(* accepted, and the projection of the whole engine after it.                                                         *)
EXTENDS SoftEngine, TraceRun
RStart(ev) == EmptyEngine
(* the engine may renumber nodes and elements, nothing else *)
Pos(V, t) == { V[t[i] + 1] : i \in 1..Len(t) }
MeshFails(ev) ==
     (IF Len(ev.x0) = Len(ev.V) /\ Range(ev.x0) = Range(ev.V) THEN {} ELSE {"nodes_of_the_mesh"})
  \cup (IF Len(ev.T0) = Len(ev.T) /\ (\A i \in 1..Len(ev.T0) : \A k \in 1..4 : ev.T0[i][k] \in 0..(Len(ev.x0) - 1))
        THEN (IF { Pos(ev.x0, ev.T0[i]) : i \in 1..Len(ev.T0) } = { Pos(ev.V, ev.T[i]) : i \in 1..Len(ev.T) } THEN {} ELSE {"elements_of_the_mesh"})
             \cup (IF Proper(ev.x0, ev.T0) THEN {} ELSE {"element_orientation"})
             \cup LET B == Boundary(ev.T0) IN
                (IF Len(ev.S) = Cardinality(B) /\ \A f \in B : \E i \in 1..Len(ev.S) : Same(ev.S[i], FaceOf(ev.T0[f[1] + 1], f[2])) THEN {} ELSE {"boundary_surface"})
               \cup (IF Len(ev.own) = Len(ev.S) /\ \A i \in 1..Len(ev.S) : << ev.own[i][1], ev.own[i][2] >> \in B
                          /\ Same(ev.S[i], FaceOf(ev.T0[ev.own[i][1] + 1], ev.own[i][2])) THEN {} ELSE {"owner_of_boundary_face"})
               \cup (IF Len(ev.nb) = Len(ev.T0) /\ \A e \in Elems(ev.T0), v \in 0..3 : ev.nb[e + 1][v + 1] = Neighbour(ev.T0, e, v) THEN {} ELSE {"neighbours"})
        ELSE {"elements_of_the_mesh"})
Body(x) == [ name |-> x.name, off |-> x.off, V |-> x.x0, T |-> x.T, S |-> x.S, mat |-> x.mat, fixed |-> x.fixed, g |-> x.g, x |-> x.x, u |-> x.u,
             dir |-> x.dir, trac |-> x.trac ]
Seqs(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Norm(x) == [ m |-> {x.a, x.b}, mu |-> x.mu ]
Star6(b, n) == SumSeq([e \in 1..Len(b.T) |-> IF n \in Range(b.T[e]) THEN Vol6(b.V, b.T[e]) ELSE 0])
StateFails(st, e) ==
     (IF Seqs(e.bodies, Body) = st.bodies THEN {}
      ELSE IF Len(e.bodies) # Len(st.bodies) THEN {"set_of_bodies"}
      ELSE UNION { LET b == Body(e.bodies[i]) IN { "body_" \o k : k \in { q \in DOMAIN b : b[q] # st.bodies[i][q] } } : i \in 1..Len(st.bodies) })
  \cup (IF \A i \in 1..Len(e.bodies) : e.bodies[i].idx = i - 1 THEN {} ELSE {"body_numbering"})
  \cup (IF Seqs(e.mats, LAMBDA x : x) = st.mats THEN {} ELSE {"materials"})
  \cup (IF { Norm(x) : x \in Range(e.inter) } = { Norm(x) : x \in Range(st.inter) } /\ Len(e.inter) = Len(st.inter) THEN {} ELSE {"interactions"})
  \cup (IF Len(e.pairs) # Len(st.mats) \/ \A i, j \in 1..Len(st.mats) : e.pairs[i][j] = Inter(st, st.mats[i].name, st.mats[j].name).mu
        THEN {} ELSE {"friction_of_a_pair_of_materials"})
  \cup (IF e.nodes = st.nodes THEN {} ELSE {"number_of_nodes"})
  \cup (IF e.shared THEN {} ELSE {"named_objects_are_shared"})
  \* mass and damping matrices belong to the material the body is made of now: 24 x row sums
  \cup (IF \A i \in 1..Len(e.bodies) : Len(st.bodies) >= i => LET b == st.bodies[i] m == Mat(st, b) IN
             Len(e.bodies[i].m24) = Len(b.V) /\ Len(e.bodies[i].c24) = Len(b.V) /\
             \A n \in 1..Len(b.V) : LET s == Star6(b, n - 1) IN e.bodies[i].m24[n] = m.rho * s /\ e.bodies[i].c24[n] = m.c * s
        THEN {} ELSE {"mass_and_damping_follow_the_material"})
RStep(st, ev) ==
  IF ev.op \in Queries THEN
    LET a == Query(st, ev) IN
    [ st |-> st,
      fails |-> (IF (ev.out = "ok") = a.ok THEN {} ELSE {"query_outcome"})
           \cup (IF a.ok /\ ev.out = "ok" /\ ev.val # a.val THEN {"query_value"} ELSE {})
           \cup StateFails(st, ev.eng) ]
  ELSE
    LET new == ev.op = "create_body" /\ Apply(st, ev).ok /\ ev.out = "ok"
        o == IF new THEN [op |-> "create_body", n |-> ev.n, V |-> ev.x0, T |-> ev.T0, S |-> ev.S] ELSE ev
        a == Apply(st, o) IN
    [ st |-> a.st,
      fails |-> (IF (ev.out = "ok") = a.ok THEN {} ELSE {IF a.ok THEN "rejected_a_valid_call" ELSE "accepted_an_invalid_call"})
           \cup (IF new THEN MeshFails(ev) ELSE {})
           \cup (IF ev.frozen THEN {} ELSE {"changed_the_callers_array"})
           \cup StateFails(a.st, ev.eng) ]
=============================================================================
