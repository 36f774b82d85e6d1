--------------------------- MODULE SpatialHashTrace ---------------------------
EXTENDS SpatialHash, TraceRun
RStart(ev) == EmptyTab
F(ok, name) == IF ok THEN {} ELSE {name}
(* the hash value recorded for a cell stands for the bucket: same cell, same value (checked), and objects of    *)
(* other cells with the same value may be returned too                                                       *)
RStep(st, ev) ==
  IF ev.op = "insert" THEN
    LET got == Range(ev.got)
    IN [ st |-> Insert(st, ev.c, ev.o, ev.t),
         fails |-> IF ev.out # "ok" THEN {"outcome"} ELSE
           F(At(st, ev.c, ev.t) \ got = {}, "object_of_the_same_cell_missed")
           \cup F(\A g \in got : g = ev.o \/ \E i \in 1..Len(st) : st[i].o = g /\ st[i].t = ev.t, "object_of_another_time_returned")
           \cup F(ev.aabb, "object_data_kept") ]
  ELSE IF ev.op = "hash" THEN [ st |-> st, fails |-> F(ev.same /\ ev.int, "hash_is_a_function_of_the_cell") ]
  ELSE IF ev.op = "cell" THEN    \* HashCell on its own: contents after each add
    [ st |-> Insert(st, ev.c, ev.o, ev.t), fails |->
       LET cur == { i \in 1..Len(st) : st[i].c = ev.c /\ st[i].t >= ev.t }
           want == [i \in 1..Len(ev.objs) |-> ev.objs[i]]
       IN F(Range(ev.objs) = At(Insert(st, ev.c, ev.o, ev.t), ev.c, ev.t), "cell_holds_the_objects_of_its_time") \cup F(ev.size = Len(ev.objs) /\ ev.stamp = ev.t /\ ev.objs[Len(ev.objs)] = ev.o, "size_and_stamp") ]
  ELSE IF ev.op = "size" THEN [ st |-> st, fails |-> F(Near(ev.v, ev.want, 2), "optimal_cell_size") ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
