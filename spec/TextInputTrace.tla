-------------------------- MODULE TextInputTrace ----------------------------
EXTENDS TextInput, TraceRun
RStart(ev) == [ k |-> 0 ]
Accepts(kind, t) == IF kind = "turn" THEN IsTurn(t) ELSE IF kind = "list" THEN IsList(t) ELSE IF kind = "ru" THEN IsRu(t) ELSE IsRange(t)
CheckFails(ev) == IF \A k \in 1..Len(ev.texts) : ev.yes[k] = Accepts(ev.kind, ev.texts[k]) THEN {} ELSE {"accepted_texts"}
Quat(ev) == LET ax == ev.axis  k == Value(ev.num) \div 90000  c == CosQ(k)  s == SinQ(k)
                x == << ev.v[2], ev.v[3], ev.v[4] >>  cr == VCross(x, ax) IN
   /\ Len(ev.v) = 4 /\ Near(ev.v[1], c, 1) /\ OnLattice(x)
   /\ \A i \in 1..3 : Abs(cr[i]) <= 8
   /\ Abs(VDot(x, x) - s * s) <= 4096
   /\ (s > 0 => VDot(x, ax) > 0) /\ (s < 0 => VDot(x, ax) < 0)
ReadFails(ev) ==
  IF ev.good THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE IF ev.kind \in {"turn", "ru"} THEN (IF Quat(ev) THEN {} ELSE {"rotation_read"})
    ELSE IF ev.kind = "list" THEN (IF Len(ev.v) = ev.want /\ \A i \in 1..Len(ev.v) : ev.v[i] = Value(ev.nums[i]) THEN {} ELSE {"values_read"})
    ELSE IF ev.kind = "range" THEN (IF Len(ev.v) = 3 /\ \A i \in 1..3 : ev.v[i] >= Value(ev.nums[1]) /\ ev.v[i] <= Value(ev.nums[2]) + 1 THEN {} ELSE {"random_range"})
    ELSE (IF ev.v = ev.expect THEN {} ELSE {"keyword"})
  ELSE (IF ev.out # "ok" THEN {} ELSE {"bad_text_refused"})
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "check" THEN CheckFails(ev)
     ELSE IF ev.op = "read" THEN ReadFails(ev)
     ELSE {"unknown_event"} ]
=============================================================================
