------------------------------ MODULE BoundsMC ------------------------------
(* Tandem traversal of two hierarchies, node by node.  A node is the range of elements it covers (split in    *)
(* the middle), a mesh is cut in chunks of L elements, each with its own tree.  Whatever the volumes, the      *)
(* traversal reports exactly the pairs of elements whose own volumes overlap, each once.                     *)
EXTENDS Bounds
CONSTANTS NA, NB, W, L
VARIABLES va, vb, q, res
Vols == { << << lo, lo + w >> >> : lo \in 0..W, w \in 0..1 }
Vol(v, r) == LET RECURSIVE U(_) U(i) == IF i = r[2] THEN v[i] ELSE Union2(v[i], U(i + 1)) IN U(r[1])
Chunks(n) == { << L * c + 1, Min2(L * c + L, n) >> : c \in 0..((n + L - 1) \div L - 1) }
Kids(r) == LET m == (r[1] + r[2]) \div 2 IN { << r[1], m >>, << m + 1, r[2] >> }
IsLeaf(r) == r[1] = r[2]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN Append(SeqOf(S \ {x}), x)
Init == /\ va \in [1..NA -> Vols] /\ vb \in [1..NB -> Vols] /\ res = << >>
        /\ q = IF Over(Vol(va, << 1, NA >>), Vol(vb, << 1, NB >>)) THEN SeqOf(Chunks(NA) \X Chunks(NB)) ELSE << >>
Next == /\ q # << >>
        /\ LET a == q[1][1]  b == q[1][2]
           IN IF ~Over(Vol(va, a), Vol(vb, b)) THEN q' = Tail(q) /\ res' = res
              ELSE IF IsLeaf(a) /\ IsLeaf(b) THEN q' = Tail(q) /\ res' = Append(res, << a[1], b[1] >>)
              ELSE q' = Tail(q) \o SeqOf((IF IsLeaf(a) THEN {a} ELSE Kids(a)) \X (IF IsLeaf(b) THEN {b} ELSE Kids(b))) /\ res' = res
        /\ UNCHANGED << va, vb >>
Spec == Init /\ [][Next]_<< va, vb, q, res >>
Exact == q = << >> => Range(res) = { p \in (1..NA) \X (1..NB) : Over(va[p[1]], vb[p[2]]) } /\ Cardinality(Range(res)) = Len(res)
=============================================================================
