----------------------------- MODULE BlockingMC -----------------------------
(* Random (Vivace) colouring as a state machine over every graph on N nodes: whatever the random choices    *)
(* and wherever it is cut off, it ends with a proper colouring, because a palette never offers a colour an  *)
(* accepted neighbour has.  A sweep over the resulting groups then never updates two interacting contacts   *)
(* at the same time.                                                                                       *)
EXTENDS Blocking
CONSTANTS N, MaxRound
VARIABLES adj, pal, col, open, round
V == 0..(N - 1)
vars == << adj, pal, col, open, round >>
Nb(v) == { u \in V : {u, v} \in adj }
Init == /\ adj \in SUBSET { e \in SUBSET V : Cardinality(e) = 2 }
        /\ pal = [v \in V |-> 0..(Cardinality(Nb(v)) - 1)] /\ col = [v \in V |-> 0] /\ open = V /\ round = 0
Pick == { f \in [V -> 0..(2 * N)] : \A v \in V : IF v \in open /\ pal[v] # {} THEN f[v] \in pal[v] ELSE f[v] = col[v] }
RECURSIVE Extend(_, _, _)
Extend(p, S, m) == IF S = {} THEN p ELSE LET v == SetMin(S) IN IF p[v] = {} THEN Extend([p EXCEPT ![v] = {m + 1}], S \ {v}, m + 1) ELSE Extend(p, S \ {v}, m)
Round == /\ open # {} /\ round < MaxRound
         /\ \E f \in Pick : LET acc == { v \in open : \A u \in Nb(v) \cap open : f[u] # f[v] }
                                p1 == [u \in V |-> IF u \in open THEN pal[u] \ { f[v] : v \in acc \cap Nb(u) } ELSE pal[u]]
                            IN col' = f /\ open' = open \ acc /\ pal' = Extend(p1, open \ acc, SetMax(Range([v \in 1..N |-> f[v - 1]])))
         /\ round' = round + 1 /\ UNCHANGED adj
RECURSIVE Finish(_, _, _)
Finish(c, S, m) == IF S = {} THEN c ELSE LET v == SetMin(S) IN Finish([c EXCEPT ![v] = m + 1], S \ {v}, m + 1)
Cut == open # {} /\ round = MaxRound /\ open' = {} /\ col' = Finish(col, open, SetMax(Range([v \in 1..N |-> col[v - 1]]))) /\ UNCHANGED << adj, pal, round >>
Next == Round \/ Cut
Spec == Init /\ [][Next]_vars
ProperSoFar == \A e \in adj : \A u, v \in e : u # v /\ u \notin open /\ v \notin open => col[u] # col[v]
PaletteSafe == \A v \in open : \A u \in Nb(v) \ open : col[u] \notin pal[v]
=============================================================================
