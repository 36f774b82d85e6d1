---------------------------- MODULE GridFieldMC -----------------------------
(* Every small grid field: interpolation meets the nodes, is continuous across cells, reproduces        *)
(* linear functions (also outside), and the slope is the difference quotient.                           *)
EXTENDS GridField
CONSTANTS MaxV
VARIABLES g, q, done
vars == << g, q, done >>
Lins == { << a, b, c, d >> : a \in {-1, 0, 2}, b \in {0, 1}, c \in {-2, 1}, d \in {0, 3} }
Grid(n, f(_, _, _)) == [n |-> n, v |-> [x \in 1..(n[1] * n[2] * n[3]) |-> f((x - 1) % n[1], ((x - 1) \div n[1]) % n[2], (x - 1) \div (n[1] * n[2]))]]
Init == /\ done = FALSE
        /\ q \in { << a, b, c >> : a \in {-3, 0, 2, 4, 7, 9}, b \in {-1, 1, 4}, c \in {0, 3, 5} }
        /\ g \in { [n |-> << 3, 2, 2 >>, v |-> v] : v \in { << a, b, c, d, 1, 0, e, 0, MaxV, 2, 0, f >> : a \in 0..MaxV, b \in 0..MaxV, c \in 0..1, d \in 0..MaxV, e \in 0..1, f \in 0..MaxV } }
           \cup { Grid(<< 3, 2, 3 >>, LAMBDA i, j, k : l[1] * i + l[2] * j + l[3] * k + l[4]) : l \in Lins }
Next == ~done /\ done' = TRUE /\ UNCHANGED g /\ q' = [q EXCEPT ![1] = @ + 1]
Spec == Init /\ [][Next]_vars
IsLin(l) == \A c \in { << i, j, k >> : i \in 0..2, j \in 0..1, k \in 0..(g.n[3] - 1) } : Node(g, c[1], c[2], c[3]) = l[1] * c[1] + l[2] * c[2] + l[3] * c[3] + l[4]
LinearReproduced == \A l \in Lins : IsLin(l) => /\ Value(g, q) = 16 * (l[1] * q[1] + l[2] * q[2] + l[3] * q[3] + 4 * l[4])
                                                 /\ \A a \in 1..3 : Slope(g, q, a) = 16 * l[a]
NodesInterpolated == \A c \in { << i, j, k >> : i \in 0..2, j \in 0..1, k \in 0..1 } : Value(g, << 4*c[1], 4*c[2], 4*c[3] >>) = 64 * Node(g, c[1], c[2], c[3])
Continuous == \A b \in {0, 1, 3} : LET p == << 4, b, q[3] >> c == CellOf(g, p) IN ValueIn(g, [c EXCEPT ![1] = 0], p) = ValueIn(g, [c EXCEPT ![1] = 1], p)
SlopeIsDerivative == CellOf(g, q) = CellOf(g, [q EXCEPT ![1] = @ + 1]) => 4 * (Value(g, [q EXCEPT ![1] = @ + 1]) - Value(g, q)) = 4 * Slope(g, q, 1)
LinearIndexOneToOne == Cardinality({ Lin(g, << i, j, k >>) : i \in 0..(g.n[1]-1), j \in 0..(g.n[2]-1), k \in 0..(g.n[3]-1) }) = Len(g.v)
Bounded == (\A a \in 1..3 : q[a] >= 0 /\ q[a] <= 4 * (g.n[a] - 1)) => Value(g, q) >= 64 * SetMin(Range(g.v)) /\ Value(g, q) <= 64 * SetMax(Range(g.v))
=============================================================================
