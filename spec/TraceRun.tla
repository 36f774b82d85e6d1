------------------------------ MODULE TraceRun ------------------------------
(* Generic trace acceptance.  A trace specification EXTENDS the design specification and this       *)
(* module, and substitutes (in its .cfg)                                                            *)
(*    TStart(ev)    - the specification state after the "reset" event ev, and                       *)
(*    TStep(st, ev) - a record [st, fails]: the specification's successor of st for the event ev    *)
(*                    and the set of names of the clauses the recorded event violates.              *)
EXTENDS TraceBase
CONSTANTS TStart(_), TStep(_, _)
VARIABLES tl, ts, tdead, tbad

TInit == tl = 1 /\ ts = <<>> /\ tdead = TRUE /\ tbad = 0

TNext ==
  /\ tl <= NTrace
  /\ LET ev == Trace[tl] IN
       IF ev.op = "crash" THEN     \* the code raised an exception where the specification has none
            Report(tl, {"unexpected_exception"}) /\ tdead' = TRUE /\ tbad' = tbad + 1 /\ UNCHANGED ts
       ELSE IF ev.op = "reset" THEN ts' = TStart(ev) /\ tdead' = FALSE /\ tbad' = tbad
       ELSE IF tdead THEN UNCHANGED << ts, tdead, tbad >>
       ELSE LET r == TStep(ts, ev) IN
              /\ Report(tl, r.fails)
              /\ ts' = r.st
              /\ tdead' = (r.fails # {})
              /\ tbad' = IF r.fails = {} THEN tbad ELSE tbad + 1
  /\ tl' = tl + 1
  /\ IF tl = NTrace THEN Done(tl, tbad') ELSE TRUE

TSpec == TInit /\ [][TNext]_<<tl, ts, tdead, tbad>>
=============================================================================
