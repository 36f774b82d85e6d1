------------------------------ MODULE TetMeshMC ------------------------------
(* Growing a mesh by gluing a tetrahedron on a boundary face (to a new or an existing node).  In every mesh so   *)
(* built neighbourhood is mutual, the boundary is a closed oriented surface, and it has exactly one face per     *)
(* missing neighbour.  Simulated behaviours are fed to the code (EmitMesh).                                *)
EXTENDS TetMesh, Json
CONSTANTS MaxN, MaxT, EmitOn
VARIABLES T, n, done
Init == T = << << 0, 1, 2, 3 >> >> /\ n = 4 /\ done = FALSE
Next == /\ ~done /\ n' \in {n, n + 1} /\ n' <= MaxN
        /\ \/ /\ Len(T) < MaxT
              /\ \E b \in Boundary(T) : \E p \in (IF n' = n THEN 0..(n - 1) ELSE {n}) :
                   /\ p \notin FaceSet(T[b[1] + 1], b[2])
                   /\ LET f == FaceOf(T[b[1] + 1], b[2])
                          t == << f[1], f[2], f[3], p >>            \* FaceOf(t, 3) = << f2, f1, f3 >>, the opposite of f
                          T2 == Append(T, t)
                      IN Conforming(T2) /\ (\A i \in 1..Len(T) : Range(T[i]) # Range(t)) /\ T' = T2
              /\ done' = FALSE
           \/ n' = n /\ T' = T /\ done' = TRUE
Spec == Init /\ [][Next]_<< T, n, done >>
Mutual == \A e \in Elems(T), v \in 0..3 : LET m == Neighbour(T, e, v) IN m # -1 => \E w \in 0..3 : Neighbour(T, m, w) = e
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SeqOf(S \ {x}), x)
Closed == ClosedSurface(LET q == SeqOf(Boundary(T)) IN [i \in 1..Len(q) |-> FaceOf(T[q[i][1] + 1], q[i][2])])
EmitMesh == (EmitOn /\ done) => PrintT("SCRIPT " \o ToJson([T |-> T, n |-> n]))
=============================================================================
