------------------------------- MODULE Bounds -------------------------------
(* Discrete oriented polytopes with K = 3 or 4 directions, axis-aligned boxes and hierarchies of them.       *)
EXTENDS Lib
Dirs(K) == IF K = 3 THEN << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >> ELSE << <<1,1,1>>, <<1,1,-1>>, <<1,-1,1>>, <<1,-1,-1>> >>
Empty(K) == [k \in 1..K |-> << OFF, -OFF >>]
Hull(K, P, env) == [k \in 1..K |-> << SetMin({ VDot(Dirs(K)[k], p) : p \in P }) - env, SetMax({ VDot(Dirs(K)[k], p) : p \in P }) + env >>]
Union2(A, B) == [k \in 1..Len(A) |-> << Min2(A[k][1], B[k][1]), Max2(A[k][2], B[k][2]) >>]
Over(A, B) == \A k \in 1..Len(A) : A[k][1] <= B[k][2] /\ B[k][1] <= A[k][2]
(* boxes << min, max >> *)
BoxOver(A, B, m) == \A i \in 1..3 : A[1][i] - m <= B[2][i] + m /\ B[1][i] - m <= A[2][i] + m

(* elements T (tuples of node numbers from 0) over the nodes V *)
Elem(V, t) == { V[t[i] + 1] : i \in 1..Len(t) }
Leaf(K, V, t, env) == Hull(K, Elem(V, t), env)
Pairs(K, VA, TA, ea, VB, TB, eb) ==
  LET A == [i \in 1..Len(TA) |-> Leaf(K, VA, TA[i], ea)]  B == [j \in 1..Len(TB) |-> Leaf(K, VB, TB[j], eb)]
  IN { << i - 1, j - 1 >> : i \in 1..Len(TA), j \in 1..Len(TB) } \cap { p \in (0..(Len(TA) - 1)) \X (0..(Len(TB) - 1)) : Over(A[p[1] + 1], B[p[2] + 1]) }
=============================================================================
