---------------------------- MODULE MasonryTrace ----------------------------
(* Scenes made by the real builders, somewhere in the world, against the structure they are asked to be.           *)
EXTENDS Masonry, TraceRun
RStart(ev) == [ base |-> << >> ]
Keep(st, f) == [ st |-> st, fails |-> f ]
(* the builder's list of names is the list of what it built; all of it is made as asked *)
Roll(ev) ==
  (IF /\ \A k \in 1..Len(ev.names) : ev.names[k] \in Range(ev.fresh)
      /\ Len(ev.names) = Len(ev.fresh) /\ Range(ev.names) = Range(ev.fresh) THEN {} ELSE {"names_of_all_bodies"})
  \cup (IF \A k \in 1..Len(ev.bodies) : ev.bodies[k].material THEN {} ELSE {"material_as_asked"})
  \cup (IF \A k \in 1..Len(ev.bodies) : ev.bodies[k].mass > 0 /\ Abs(ev.bodies[k].mass - ev.bodies[k].should) <= 2 + ev.bodies[k].should \div 500 THEN {} ELSE {"mass_is_density_times_volume"})
  \cup (IF \A k \in 1..Len(ev.bodies) : ev.bodies[k].rest THEN {} ELSE {"at_rest"})
  \cup (IF Cardinality({ k \in 1..Len(ev.bodies) : ev.bodies[k].fixed }) = ev.fixed THEN {} ELSE {"free_and_fixed_as_asked"})
  \cup (IF ev.others THEN {} ELSE {"other_bodies_untouched"})
Points(ev) == TLCEval([k \in 1..Len(ev.V) |-> [i \in 1..Len(ev.V[k]) |-> InFrame(ev.F, ev.V[k][i])]])
Par(ev) == ev.p
HingesIn(ev) == [k \in 1..Len(ev.hinges) |-> [ev.hinges[k] EXCEPT !.o = [i \in 1..2 |-> InFrame(ev.F, @[i])], !.a = [i \in 1..2 |-> MApp(MTr(ev.F.m), @[i])]]]
Shapes(s) == Range(s)
SameStones(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A i \in 1..Len(A[k]) : ClV(A[k][i], B[k][i])
Built(ev) == CASE ev.kind = "chain" -> ChainFails(Points(ev), ev.p, HingesIn(ev))
               [] ev.kind = "lattice" -> LatticeFails([b \in 1..Len(ev.pos) |-> InFrame(ev.F, ev.pos[b])], [b \in 1..Len(ev.turn) |-> MMul(MTr(ev.F.m), ev.turn[b])],
                                                      ev.shape, [ev.p EXCEPT !.shapes = Range(@)])
               [] OTHER -> Fails(ev.kind, Points(ev), ev.p)
RStep(st, ev) ==
  CASE ev.out # "ok" -> Keep(st, {"outcome"})
    [] ev.op = "build" -> Keep(st, Roll(ev) \cup Built(ev))
    [] ev.op = "roll" -> Keep(st, Roll(ev))
    \* the same structure in another frame
    [] ev.op = "base" -> [ st |-> [base |-> Points(ev)], fails |-> Roll(ev) ]
    [] ev.op = "moved" -> Keep(st, Roll(ev) \cup (IF SameStones(Points(ev), st.base) THEN {} ELSE {"moves_with_its_frame"}))
    [] OTHER -> Keep(st, {"unknown_event"})
=============================================================================
