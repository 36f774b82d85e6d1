------------------------------- MODULE UtilMC -------------------------------
(* A queue that keeps outdated entries and skips them when they come up behaves as the plain queue.      *)
EXTENDS Util
CONSTANTS Items, Values, MaxOps
VARIABLES q, bag, cur, n, got
vars == << q, bag, cur, n, got >>
Init == q = EmptyQ /\ bag = {} /\ cur = EmptyQ /\ n = 0 /\ got = << >>
(* entries carry the number of the operation that made them; the current one of an item is remembered *)
Push == \E i \in Items, v \in Values : n < MaxOps /\ n' = n + 1 /\ q' = QSet(q, i, v) /\ bag' = bag \cup { << v, i, n >> } /\ cur' = QSet(cur, i, << v, i, n >>) /\ got' = << >>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3])
Alive(e) == e[2] \in DOMAIN cur /\ cur[e[2]] = e
Stale == { e \in bag : ~Alive(e) }
Head1 == CHOOSE e \in bag : \A d \in bag : Less(e, d)
Skip == bag # {} /\ ~Alive(Head1) /\ bag' = bag \ { Head1 } /\ got' = << >> /\ UNCHANGED << q, cur, n >>
Pop == /\ bag # {} /\ Alive(Head1) /\ n < MaxOps /\ n' = n + 1
       /\ bag' = bag \ { Head1 } /\ cur' = Without(cur, Head1[2])
       /\ got' = << Head1[2], First(q) >> /\ q' = Without(q, First(q))
Next == Push \/ Skip \/ Pop
Spec == Init /\ [][Next]_vars
SameFirst == got = << >> \/ got[1] = got[2]
SameItems == DOMAIN q = DOMAIN cur /\ \A i \in DOMAIN q : cur[i][1] = q[i] /\ cur[i] \in bag
EmptyTogether == (q = EmptyQ) = (\A e \in bag : ~Alive(e))
=============================================================================
