----------------------------- MODULE SimplexMC ------------------------------
(* Every small simplex and point: the weights sum to one, reproduce the point (or its projection), are  *)
(* one at the corners and affine; lattices have the stated number of points.                            *)
EXTENDS Simplex
CONSTANTS C, PC
VARIABLES x, p, k
vars == << x, p, k >>
Pts == { << a, b, c >> : a \in 0..C, b \in 0..C, c \in 0..C }
PtsQ == { << a - 3, b - 3, c - 3 >> : a \in PC, b \in PC, c \in PC }
Init == /\ x \in { << a, b, c, d >> : a \in { << 0, 0, 0 >>, << 1, 0, 1 >> }, b \in Pts, c \in Pts, d \in Pts }
        /\ Vol6(x) # 0
        /\ p = << 0, 0, 0 >> /\ k = 0
Next == \/ k = 0 /\ k' = 1 /\ p' \in PtsQ /\ UNCHANGED x
        \/ k = 1 /\ k' = 2 /\ p' = << p[1] + 1, p[2] - 2, p[3] >> /\ UNCHANGED x
        \/ k = 2 /\ k' = 3 /\ UNCHANGED p /\ x' = << x[1], x[3], x[2], x[4] >>
Spec == Init /\ [][Next]_vars
Comb(w, n) == [a \in 1..3 |-> SumSeq([i \in 1..n |-> w[i] * 4 * x[i][a]])]
TetReproduces == Comb(TetNum(x, p), 4) = [a \in 1..3 |-> TetDen(x) * p[a]] /\ SumSeq(TetNum(x, p)) = TetDen(x)
TriProjects == LET w == TriNum(x, p)  d == VSub(VScale(TriDen(x), p), Comb(w, 3))
               IN SumSeq(w) = TriDen(x) /\ VDot(d, VSub(x[2], x[1])) = 0 /\ VDot(d, VSub(x[3], x[1])) = 0
EdgeProjects == LET w == EdgeNum(x, p)  d == VSub(VScale(EdgeDen(x), p), Comb(w, 2))
                IN SumSeq(w) = EdgeDen(x) /\ VDot(d, VSub(x[2], x[1])) = 0
Corners == \A a \in 1..4 : TetNum(x, Q4(x[a])) = [i \in 1..4 |-> IF i = a THEN TetDen(x) ELSE 0]
FacesLookInside == \A a \in 1..4 : VDot(FaceNormal(x, a), VSub(x[a], x[FaceOf(a)[1]])) = Vol6(x)
SwapNegates == [][k = 2 => Vol6(x') = -Vol6(x) /\ TetNum(x', p)[2] = -TetNum(x, p)[3]]_vars
Counts == (k = 0 /\ x[2] = << 1, 0, 0 >> /\ x[1] = << 0, 0, 0 >> /\ x[3] = << 0, 1, 0 >>) => \A n \in 1..6 : Cardinality(Lattice(n)) * 6 = (n + 1) * (n + 2) * (n + 3)
               /\ Cardinality(InteriorLattice(n)) * 6 = (n - 1) * (n - 2) * (n - 3) * (IF n >= 4 THEN 1 ELSE 0)
=============================================================================
