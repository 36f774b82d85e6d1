----------------------------- MODULE UtilTrace ------------------------------
EXTENDS Util, TraceRun
RStart(ev) == [ q |-> EmptyQ, t |-> Idle ]
Keep(st, f) == [ st |-> st, fails |-> f ]
OkElse(ev) == IF ev.out = "ok" THEN {} ELSE {"outcome"}
RStep(st, ev) ==
  CASE ev.op \in {"push", "update"} -> [ st |-> [st EXCEPT !.q = QSet(@, ev.i, ev.v)], fails |-> OkElse(ev) ]
    [] ev.op = "pop" -> IF DOMAIN st.q = {} THEN Keep(st, IF ev.out = "ok" /\ ev.i = -1 THEN {} ELSE {"empty_queue"})
                        ELSE [ st |-> [st EXCEPT !.q = Without(@, First(@))], fails |-> IF ev.out = "ok" /\ ev.i = First(st.q) THEN {} ELSE {"smallest_first"} ]
    [] ev.op = "some" -> Keep(st, IF ev.out = "ok" /\ ev.b = (DOMAIN st.q # {}) THEN {} ELSE {"emptiness"})
    \* times in 1/1048576 s; lo and hi bound what can have passed between the calls
    [] ev.op = "start" -> [ st |-> [st EXCEPT !.t.on = TRUE], fails |-> OkElse(ev) \cup (IF ev.last = st.t.last /\ ev.total = st.t.total THEN {} ELSE {"stopwatch"}) ]
    [] ev.op = "end" -> IF ~st.t.on THEN Keep(st, (IF ev.out = "RuntimeError" THEN {} ELSE {"end_without_start_refused"}) \cup (IF ev.last = st.t.last /\ ev.total = st.t.total THEN {} ELSE {"stopwatch"}))
                        ELSE [ st |-> [st EXCEPT !.t = [on |-> FALSE, last |-> ev.last, total |-> ev.total]],
                               fails |-> OkElse(ev) \cup (IF ev.last >= ev.lo - 2 /\ ev.last <= ev.hi + 2 THEN {} ELSE {"elapsed"})
                                         \cup (IF Abs(ev.total - st.t.total - ev.last) <= 2 THEN {} ELSE {"accumulated"}) ]
    [] OTHER -> Keep(st, {"unknown_event"})
=============================================================================
