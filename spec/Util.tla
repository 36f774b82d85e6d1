-------------------------------- MODULE Util --------------------------------
(* A priority queue whose values can be changed, and a stopwatch.                                       *)
EXTENDS Lib
(* queue: a function from the waiting items to their values; the smallest value goes first, then the smallest item *)
EmptyQ == << >>
QSet(q, i, v) == (i :> v) @@ q
Before(q, i, j) == q[i] < q[j] \/ (q[i] = q[j] /\ i <= j)
First(q) == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : Before(q, i, j)
Without(q, i) == [j \in DOMAIN q \ {i} |-> q[j]]
(* stopwatch: running?, and the last and accumulated times *)
Idle == [on |-> FALSE, last |-> 0, total |-> 0]
=============================================================================
