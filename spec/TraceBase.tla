------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded events and reporting verdicts.  Every event is judged: a trace specification    *)
(* computes the set of failing clauses of the event; a non-empty set is printed and the rest of     *)
(* that history is skipped (up to the next "reset").                                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTrace == Len(Trace)

Report(line, clauses) ==
  IF clauses = {} THEN TRUE
  ELSE PrintT("VBAD " \o ToJson([line |-> line, clauses |-> clauses]))
Done(l, bad) == PrintT("VDONE " \o ToJson([n |-> l, bad |-> bad]))
=============================================================================
