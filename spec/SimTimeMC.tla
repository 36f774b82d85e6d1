------------------------------ MODULE SimTimeMC ------------------------------
(* The loop of simulate() as a state machine: calls with arbitrary durations and time steps.         *)
EXTENDS SimTime
CONSTANTS MaxT, MaxH, MaxCalls
VARIABLES left, h, T, steps, now, calls, log
vars == << left, h, T, steps, now, calls, log >>
Init == left = 0 /\ h = 1 /\ T = 0 /\ steps = << >> /\ now = 0 /\ calls = 0 /\ log = 0
Call == /\ left = 0 /\ calls < MaxCalls
        /\ \E t \in -1..MaxT, hh \in 1..MaxH :
             IF t <= 0 THEN calls' = calls + 1 /\ UNCHANGED << left, h, T, steps, now, log >>     \* rejected: nothing happens
             ELSE left' = t /\ T' = t /\ h' = hh /\ steps' = << >> /\ calls' = calls + 1 /\ UNCHANGED << now, log >>
Step == /\ left > 0
        /\ LET d == Min2(left, h) IN left' = left - d /\ steps' = Append(steps, d) /\ now' = now + d /\ log' = log + 1
        /\ UNCHANGED << h, T, calls >>
Next == Call \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
SumIsT == SumSeq(steps) + left = T
EveryStepBounded == \A i \in 1..Len(steps) : steps[i] > 0 /\ steps[i] <= h
ClosedForm == (left = 0 /\ T > 0) => steps = Steps(T, h)
OneRecordPerStep == log >= Len(steps)
Terminates == [](left > 0 => <>(left = 0))
=============================================================================
