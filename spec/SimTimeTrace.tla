---------------------------- MODULE SimTimeTrace ----------------------------
(* Recorded simulate() calls.  Durations are in ticks of 1e-8 s (decimal) or exact dyadic ticks.     *)
(* State: the number of records in the engine's log and a digest of the world.                       *)
EXTENDS SimTime, TraceRun
RStart(ev) == [ log |-> 0, world |-> ev.world ]
RStep(st, ev) ==
  IF ev.op = "simulate" THEN
    LET valid == ev.T > 0
        want == IF valid THEN Steps(ev.T, ev.h) ELSE << >>
        logn == IF ev.prof /\ valid THEN st.log + Len(want) ELSE st.log
    IN [ st |-> [ log |-> logn, world |-> ev.world ],
         fails |-> (IF (ev.out = "ok") = valid THEN {} ELSE {"simulate_outcome"})
              \cup (IF ev.loglen >= st.log /\ (~ev.prof \/ ev.loglen = logn) THEN {} ELSE {"one_log_record_per_step"})
              \cup (IF ~ev.seen \/ ~valid THEN {}       \* ev.dts: the step lengths the stepper was asked for
                    ELSE (IF Len(ev.dts) = Len(want) THEN {} ELSE {"number_of_steps"})
                    \cup (IF \A k \in 1..Len(ev.dts) : ev.dts[k] # OFF /\ ev.dts[k] <= ev.h + ev.tol /\ ev.dts[k] > 0 THEN {} ELSE {"step_not_longer_than_time_step"})
                    \cup (IF Len(ev.dts) = Len(want) /\ NearV(ev.dts, want, ev.tol) THEN {} ELSE {"step_lengths"})
                    \cup (IF \A k \in 1..Len(ev.dts) : ev.dts[k] # OFF
                          THEN (IF Abs(SumSeq(ev.dts) - ev.T) <= ev.tol * (Len(ev.dts) + 1) THEN {} ELSE {"steps_sum_to_T"}) ELSE {}))
              \cup (IF valid \/ ev.world = st.world THEN {} ELSE {"rejected_call_changed_the_world"})
              \cup (IF ~ev.logseen \/ ~valid THEN {}
                    ELSE IF NearV(ev.logdts, want, ev.tol) THEN {} ELSE {"log_records_the_step_lengths"}) ]
  ELSE IF ev.op = "same" THEN   \* two ways of computing the same future
    [ st |-> st, fails |-> IF Len(ev.a) = Len(ev.b) /\ NearV(ev.a, ev.b, ev.tol) THEN {} ELSE {ev.what} ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
