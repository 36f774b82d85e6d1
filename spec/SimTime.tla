------------------------------- MODULE SimTime -------------------------------
(* simulate(T): time is advanced by successive steps.  Times are integers (ticks).                   *)
EXTENDS Lib

NSteps(T, h) == (T + h - 1) \div h
StepLen(T, h, k) == IF k < NSteps(T, h) THEN h ELSE T - (NSteps(T, h) - 1) * h     \* k = 1 .. NSteps
Steps(T, h) == [k \in 1..NSteps(T, h) |-> StepLen(T, h, k)]
=============================================================================
