------------------------------ MODULE Blocking ------------------------------
(* The contact graph and its colourings.  A contact touches a set of coordinates (rigid: two bodies; soft: *)
(* the nodes of two tetrahedra); contacts that touch a common one interact.  A colouring is a sequence of   *)
(* groups; all contacts of a group may be updated at the same time.                                        *)
EXTENDS Lib
RigidTouch(c) == { c[1], c[2] }
(* soft contact << a, ta, b, tb >>: bodies a, b with their tetrahedra ta, tb (from 0); B = sequence of [T, off] *)
Nodes(B, a, t) == { B[a].T[t + 1][i] + B[a].off : i \in 1..4 }
SoftTouch(B, c) == Nodes(B, c[1], c[2]) \cup Nodes(B, c[3], c[4])
Edges(touch) == { e \in SUBSET (0..(Len(touch) - 1)) : Cardinality(e) = 2 /\ \E i, j \in e : i # j /\ touch[i + 1] \cap touch[j + 1] # {} }
EdgesOf(touch) == { << i, j >> \in (0..(Len(touch) - 1)) \X (0..(Len(touch) - 1)) : i < j /\ touch[i + 1] \cap touch[j + 1] # {} }
Partition(groups, K) == LET n(k) == Cardinality({ p \in { << g, i >> : g \in 1..Len(groups), i \in 1..(K + 1) } : p[2] <= Len(groups[p[1]]) /\ groups[p[1]][p[2]] = k })
   IN (\A g \in 1..Len(groups) : Len(groups[g]) \in 1..(K + 1) /\ \A i \in 1..Len(groups[g]) : groups[g][i] \in 0..(K - 1)) /\ \A k \in 0..(K - 1) : n(k) = 1
Proper(groups, E) == \A g \in 1..Len(groups) : \A i, j \in 1..Len(groups[g]) : << groups[g][i], groups[g][j] >> \notin E
=============================================================================
