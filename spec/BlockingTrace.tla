---------------------------- MODULE BlockingTrace ----------------------------
EXTENDS Blocking, TraceRun
RStart(ev) == [ touch |-> IF ev.type = "soft_body" THEN [i \in 1..Len(ev.cps) |-> SoftTouch(ev.B, ev.cps[i])] ELSE [i \in 1..Len(ev.cps) |-> RigidTouch(ev.cps[i])], type |-> ev.type ]
F(ok, name) == IF ok THEN {} ELSE {name}
RStep(st, ev) ==
  LET K == Len(st.touch)  E == EdgesOf(st.touch)
  IN [ st |-> st,
       fails |->
    IF ev.op = "graph" THEN
       (IF st.type \notin {"rigid_body", "soft_body"} THEN F(ev.out = (IF K = 0 THEN "ok" ELSE "ValueError"), "unknown_body_type")
        ELSE F(ev.out = "ok", "graph_outcome") \cup F(Range(ev.nodes) = 0..(K - 1) /\ Len(ev.nodes) = K, "a_node_per_contact")
             \cup F({ << ev.edges[i][1], ev.edges[i][2] >> : i \in 1..Len(ev.edges) } \ E = {}, "edge_between_independent_contacts")
             \cup F(E \ { << ev.edges[i][1], ev.edges[i][2] >> : i \in 1..Len(ev.edges) } = {}, "interacting_contacts_have_an_edge"))
    ELSE IF ev.op = "greedy" THEN
       F(ev.out = "ok" /\ \A g \in 1..Len(ev.groups) : \A i \in 1..Len(ev.groups[g]) : ev.groups[g][i][1] % 4 = 0 /\ ev.groups[g][i][2] = ev.groups[g][i][1] + 4, "blocks_of_four_rows")
       \cup LET gs == [g \in 1..Len(ev.groups) |-> [i \in 1..Len(ev.groups[g]) |-> ev.groups[g][i][1] \div 4]]
            IN F(Partition(gs, K), "every_contact_in_one_group") \cup F(Proper(gs, E), "no_interacting_contacts_in_a_group")
    ELSE IF ev.op = "random" THEN
       F(ev.out = "ok" /\ Partition(ev.groups, K), "every_contact_in_one_group") \cup F(Proper(ev.groups, E), "no_interacting_contacts_in_a_group")
    ELSE {"unknown_event"} ]
=============================================================================
