------------------------------- MODULE Masonry ------------------------------
(* Scenes of dry stone: stones are sets of corners (fixed point, in the frame of the structure), and a structure  *)
(* is complete when its stones fill the shape it is asked to have, each joint shared by the stones that meet there.*)
EXTENDS Lib
CONSTANT Tol
Cl(a, b) == Abs(a - b) <= Tol
ClV(p, q) == Cl(p[1], q[1]) /\ Cl(p[2], q[2]) /\ Cl(p[3], q[3])
Sq(x) == x * x
(* a squared length that belongs to the length r *)
SqIs(s, r) == Abs(s - Sq(r)) <= 4 * Tol * (r + Tol)
InFrame(F, p) == MApp(MTr(F.m), VSub(p, F.r))
Lo(V, c) == SetMin({ V[k][c] : k \in 1..Len(V) })
Hi(V, c) == SetMax({ V[k][c] : k \in 1..Len(V) })
Spans(V, c, a, b) == Cl(Lo(V, c), a) /\ Cl(Hi(V, c), b)
IsBox(V) == Len(V) = 8 /\ \A k \in 1..8 : \A c \in 1..3 : Cl(V[k][c], Lo(V, c)) \/ Cl(V[k][c], Hi(V, c))
BoxAt(V, x1, x2, y1, y2, z1, z2) == IsBox(V) /\ Spans(V, 1, x1, x2) /\ Spans(V, 2, y1, y2) /\ Spans(V, 3, z1, z2)
Shared(A, B) == Cardinality({ k \in 1..Len(A) : \E m \in 1..Len(B) : ClV(A[k], B[m]) })
(* the stones S (a set of indices of X) stand on each other from a to b *)
Column(X, S, a, b) ==
  /\ S # {}
  /\ Cardinality({ k \in S : Cl(Lo(X[k], 2), a) }) = 1 /\ Cardinality({ k \in S : Cl(Hi(X[k], 2), b) }) = 1
  /\ \A k \in S : /\ Hi(X[k], 2) <= b + Tol /\ Lo(X[k], 2) >= a - Tol
                  /\ Cl(Hi(X[k], 2), b) \/ Cardinality({ m \in S : Cl(Lo(X[m], 2), Hi(X[k], 2)) }) = 1
                  /\ Cl(Lo(X[k], 2), a) \/ Cardinality({ m \in S : Cl(Hi(X[m], 2), Lo(X[k], 2)) }) = 1
SameHeights(X, S) == \A k, m \in S : Cl(Hi(X[k], 2) - Lo(X[k], 2), Hi(X[m], 2) - Lo(X[m], 2))
FlatSq(p) == Sq(p[1]) + Sq(p[3])
(* the squared radius of a round stone at a level *)
RimSq(V, y) == SetMax({ IF Cl(V[k][2], y) THEN FlatSq(V[k]) ELSE 0 : k \in 1..Len(V) })
SameRim(a, b) == \/ Abs(a - b) <= 8 * Tol \/ \E r \in { SetMax({ r \in { 0, 100, 200, 400, 800, 1600, 3200, 6400, 12800 } : Sq(r) <= Max2(a, b) }) } : Abs(a - b) <= 8 * Tol * (2 * r + Tol)

(* ---- pillar: socle, base, shaft, echinus, abacus ---- *)
PillarFails(X, p) == LET n == Len(X)  All == 1..n
                         Ends == { k \in All : Cl(Lo(X[k], 2), 0) \/ Cl(Hi(X[k], 2), p.h) }
                         Round == All \ Ends
                         Mid == { k \in Round : ~\E e \in Ends : Cl(Lo(X[e], 2), Hi(X[k], 2)) \/ Cl(Hi(X[e], 2), Lo(X[k], 2)) } IN
  (IF n = p.K + 4 THEN {} ELSE {"number_of_stones"})
  \cup (IF Column(X, All, 0, p.h) THEN {} ELSE {"stones_stand_on_each_other"})
  \cup (IF \A k \in Ends : IsBox(X[k]) /\ Spans(X[k], 1, -(p.w \div 2), p.w \div 2) /\ Spans(X[k], 3, -(p.d \div 2), p.d \div 2) THEN {} ELSE {"ends_have_the_width"})
  \cup (IF Cardinality(Mid) = p.K /\ SameHeights(X, Mid) THEN {} ELSE {"shaft_in_equal_stones"})
  \cup (IF \A k \in Round : \A m \in Round : Cl(Hi(X[k], 2), Lo(X[m], 2)) => SameRim(RimSq(X[k], Hi(X[k], 2)), RimSq(X[m], Lo(X[m], 2))) THEN {} ELSE {"stones_fit"})
  \cup (IF \A k \in All : Cl(Lo(X[k], 1), -Hi(X[k], 1)) /\ Cl(Lo(X[k], 3), -Hi(X[k], 3)) THEN {} ELSE {"upright"})

(* ---- arch: two piers and a half ring ---- *)
ArchFails(X, p) == LET n == Len(X)  All == 1..n  ph == p.h - (p.w \div 2)  half == p.w \div 2  br == p.w \div 5
                       Pier == { k \in All : Hi(X[k], 2) <= ph + Tol }  Left == { k \in Pier : Lo(X[k], 1) < 0 }  Right == Pier \ Left  Ring == All \ Pier
                       Rad(q) == Sq(q[1]) + Sq(q[2] - ph)
                       Feet(k) == Cardinality({ i \in 1..Len(X[k]) : Cl(X[k][i][2], ph) })
                       Nb(k) == { m \in Ring \ {k} : Shared(X[k], X[m]) > 0 } IN
  (IF Cardinality(Left) = p.K /\ Cardinality(Right) = p.K /\ Cardinality(Ring) = p.A THEN {} ELSE {"number_of_stones"})
  \cup (IF Column(X, Left, 0, ph) /\ Column(X, Right, 0, ph) /\ SameHeights(X, Pier) THEN {} ELSE {"stones_stand_on_each_other"})
  \cup (IF /\ \A k \in Left : IsBox(X[k]) /\ Spans(X[k], 1, -half, br - half)
           /\ \A k \in Right : IsBox(X[k]) /\ Spans(X[k], 1, half - br, half)
           /\ \A k \in All : Spans(X[k], 3, -(p.d \div 2), p.d \div 2) THEN {} ELSE {"piers_have_the_width"})
  \cup (IF \A k \in Ring : /\ Len(X[k]) = 8 /\ \A i \in 1..8 : X[k][i][2] >= ph - Tol
                           /\ Cardinality({ i \in 1..8 : SqIs(Rad(X[k][i]), half) }) = 4 /\ Cardinality({ i \in 1..8 : SqIs(Rad(X[k][i]), half - br) }) = 4
        THEN {} ELSE {"ring_between_the_radii"})
  \cup (IF /\ \A k \in Ring : \A m \in Nb(k) : Shared(X[k], X[m]) = 4
           /\ \A k \in Ring : Cardinality(Nb(k)) + (Feet(k) \div 4) = 2 /\ Feet(k) \in {0, 4}
           /\ Cardinality({ k \in Ring : Feet(k) = 4 /\ Lo(X[k], 1) > 0 }) = 1 /\ Cardinality({ k \in Ring : Feet(k) = 4 /\ Hi(X[k], 1) < 0 }) = 1
        THEN {} ELSE {"stones_share_their_joints"})

(* ---- dome: rings of stones between two spheres; levels[k] is the height of the k-th joint on the outer one ---- *)
DomeFails(X, p) == LET n == Len(X)  All == 1..n
                       NormSq(q) == Sq(q[1]) + Sq(q[2]) + Sq(q[3])
                       LayerOf(k) == { l \in 1..p.L : Cl(Hi(X[k], 2), p.levels[l + 1]) }
                       Full(k) == { m \in All \ {k} : Shared(X[k], X[m]) = 4 }
                       Side(k) == { m \in Full(k) : Cl(Hi(X[m], 2), Hi(X[k], 2)) } IN
  (IF n = p.L * p.G /\ \A l \in 1..p.L : Cardinality({ k \in All : l \in LayerOf(k) }) = p.G THEN {} ELSE {"number_of_stones"})
  \cup (IF \A k \in All : /\ Len(X[k]) = 8 /\ Cardinality({ i \in 1..8 : SqIs(NormSq(X[k][i]), p.ro) }) = 4 /\ Cardinality({ i \in 1..8 : SqIs(NormSq(X[k][i]), p.ri) }) = 4
        THEN {} ELSE {"ring_between_the_radii"})
  \cup (IF \A k \in All : \A l \in LayerOf(k) : /\ Cardinality({ i \in 1..8 : SqIs(NormSq(X[k][i]), p.ro) /\ Cl(X[k][i][2], p.levels[l + 1]) }) = 2
                                               /\ Cardinality({ i \in 1..8 : SqIs(NormSq(X[k][i]), p.ro) /\ Cl(X[k][i][2], p.levels[l]) }) = 2
        THEN {} ELSE {"equal_angles"})
  \cup (IF \A k \in All : Cardinality(Side(k)) = 2 THEN {} ELSE {"rings_close"})
  \cup (IF \A k \in All : \A l \in LayerOf(k) : Cardinality(Full(k) \ Side(k)) = (IF l = 1 THEN 0 ELSE 1) + (IF l = p.L THEN 0 ELSE 1) THEN {} ELSE {"stones_share_their_joints"})

(* ---- tower: rings of equal stones, each layer turned by half a stone; chord and bond are the distances between   *)
(* centres of neighbours in a ring and in the next one, tan that of half the angle of a stone in thousandths ---- *)
Sum8(V, c) == LET f[k \in 0..8] == IF k = 0 THEN 0 ELSE f[k - 1] + V[k][c] IN f[8]
Centre(V) == << Sum8(V, 1) \div 8, Sum8(V, 2) \div 8, Sum8(V, 3) \div 8 >>
FlatDistSq(a, b) == Sq(a[1] - b[1]) + Sq(a[3] - b[3])
TowerFails(X, p) == LET n == Len(X)  All == 1..n  c == (p.ri + p.ro) \div 2
                        C == TLCEval([k \in All |-> IF Len(X[k]) = 8 THEN Centre(X[k]) ELSE VZero])
                        LayerOf(k) == { l \in 1..p.L : Cl(Lo(X[k], 2) * p.L, (l - 1) * p.h) \/ Abs(Lo(X[k], 2) * p.L - (l - 1) * p.h) <= Tol * p.L }
                        In(l) == { k \in All : l \in LayerOf(k) }
                        Ahead(k, q) == (q[1] * C[k][1] + q[3] * C[k][3])             \* c times the radial coordinate
                        Aside(k, q) == Abs(q[1] * C[k][3] - q[3] * C[k][1])          \* c times the tangential one
                        At(k, q, r) == Abs(Ahead(k, q) - c * r) <= 3 * Tol * c
                        Wide(k, q, r) == Abs(Aside(k, q) - c * ((((r * p.tan) \div 1000) * p.safe) \div 1000)) <= 6 * Tol * c
                        D == TLCEval([k \in All |-> [m \in All |-> FlatDistSq(C[k], C[m])]]) IN
  IF \E k \in All : Len(X[k]) # 8 THEN {"number_of_stones"} ELSE
  (IF n = p.L * p.G /\ \A l \in 1..p.L : Cardinality(In(l)) = p.G THEN {} ELSE {"number_of_stones"})
  \cup (IF \A k \in All : \E l \in LayerOf(k) : Abs(Hi(X[k], 2) * p.L - l * p.h) <= Tol * p.L THEN {} ELSE {"stones_stand_on_each_other"})
  \cup (IF \A k \in All : SqIs(FlatSq(C[k]), c) THEN {} ELSE {"centred_in_the_wall"})
  \cup (IF \A k \in All : /\ Cardinality({ i \in 1..8 : At(k, X[k][i], p.ri) }) = 4 /\ Cardinality({ i \in 1..8 : At(k, X[k][i], p.ro) }) = 4 THEN {} ELSE {"ring_between_the_radii"})
  \cup (IF \A k \in All : \A i \in 1..8 : Wide(k, X[k][i], IF p.cubes \/ At(k, X[k][i], p.ri) THEN p.ri ELSE p.ro) THEN {} ELSE {"stones_as_wide_as_their_place"})
  \cup (IF \A l \in 1..p.L : \A k \in In(l) : Cardinality({ m \in In(l) \ {k} : SqIs(D[k][m], p.chord) }) = 2 THEN {} ELSE {"rings_close"})
  \cup (IF \A l \in 1..(p.L - 1) : \A k \in In(l) : Cardinality({ m \in In(l + 1) : SqIs(D[k][m], p.bond) }) = 2 THEN {} ELSE {"joints_of_layers_alternate"})

(* ---- a stack of boxes, each turned by an eighth about the vertical ---- *)
Eighth(a) == << (7071 * (a[1] + a[3])) \div 10000, a[2], (7071 * (a[3] - a[1])) \div 10000 >>
RECURSIVE EighthTurns(_, _)
EighthTurns(k, a) == IF k <= 0 THEN a ELSE IF k >= 2 THEN EighthTurns(k - 2, MApp(RotY, a)) ELSE Eighth(a)
StackFails(X, p) == LET n == Len(X)  All == 1..n
                        Corner(k) == { EighthTurns(k % 8, << sx * (p.w \div 2), (k + sy) * p.h, sz * (p.d \div 2) >>) : sx \in {-1, 1}, sy \in {0, 1}, sz \in {-1, 1} } IN
  (IF n = p.K THEN {} ELSE {"number_of_stones"})
  \cup (IF Column(X, All, 0, p.K * p.h) THEN {} ELSE {"stones_stand_on_each_other"})
  \cup (IF \A k \in 0..(p.K - 1) : \E m \in All : Len(X[m]) = 8 /\ \A e \in Corner(k) : \E i \in 1..8 : ClV(X[m][i], e) THEN {} ELSE {"each_turned_on"})

(* ---- a box of ground under the origin ---- *)
GroundFails(X, p) == IF Len(X) = 1 /\ BoxAt(X[1], -50000, 50000, -1000, 0, -50000, 50000) THEN {} ELSE {"ground_ends_at_the_origin"}

(* ---- a chain of cubes on edge along x, linked by hinges half-way ---- *)
ChainFails(X, p, hinges) == LET n == Len(X)  All == 1..n  Wd(k) == Hi(X[k], 1) - Lo(X[k], 1)  Mid(k) == << (Hi(X[k], 1) + Lo(X[k], 1)) \div 2, 0, 0 >> IN
  (IF n = p.K /\ Len(hinges) = p.K - 1 THEN {} ELSE {"number_of_stones"})
  \cup (IF \A k \in All : /\ Abs(Sq(Wd(k)) - 2 * Sq(p.e)) <= 16 * Tol * p.e /\ Spans(X[k], 3, -(p.e \div 2), p.e \div 2) /\ Cl(Lo(X[k], 2), -Hi(X[k], 2)) /\ Cl(Hi(X[k], 2) * 2, Wd(k)) THEN {} ELSE {"cubes_on_edge"})
  \cup (IF \A k \in 1..(n - 1) : Abs(20 * (Lo(X[k + 1], 1) - Hi(X[k], 1)) - Wd(k)) <= 40 * Tol THEN {} ELSE {"gaps_of_a_twentieth"})
  \cup (IF Cl(Lo(X[1], 1), -Hi(X[n], 1)) THEN {} ELSE {"centred"})
  \cup (IF \A k \in 1..Len(hinges) : hinges[k].p = k /\ hinges[k].c = k + 1 THEN {} ELSE {"links_in_a_row"})
  \cup (IF \A k \in 1..Len(hinges) : k + 1 <= n => /\ \A i \in 1..2 : Abs(2 * hinges[k].o[i][1] - Mid(k)[1] - Mid(k + 1)[1]) <= 4 * Tol /\ Cl(hinges[k].o[i][2], 0) /\ Cl(hinges[k].o[i][3], 0)
                                                   /\ \A i \in 1..2 : ClV(hinges[k].a[i], << 0, 0, 1000 >>) THEN {} ELSE {"hinges_half_way"})

(* ---- a lattice of shapes, one in the middle of every cell ---- *)
LatticeFails(pos, turn, shape, p) == LET n == Len(pos)
                        Cell(i, j, k) == << ((2 * i + 1) * p.w) \div (2 * p.I), ((2 * j + 1) * p.h) \div (2 * p.J), ((2 * k + 1) * p.d) \div (2 * p.K) >> IN
  (IF n = p.I * p.J * p.K THEN {} ELSE {"number_of_stones"})
  \cup (IF \A i \in 0..(p.I - 1) : \A j \in 0..(p.J - 1) : \A k \in 0..(p.K - 1) : Cardinality({ b \in 1..n : ClV(pos[b], Cell(i, j, k)) }) = 1 THEN {} ELSE {"one_in_every_cell"})
  \cup (IF \A b \in 1..n : turn[b] = p.turn THEN {} ELSE {"turned_as_asked"})
  \cup (IF \A b \in 1..n : shape[b] \in p.shapes THEN {} ELSE {"shapes_as_asked"})
  \cup (IF n < Cardinality(p.shapes) \/ { shape[b] : b \in 1..n } = p.shapes \/ p.I + p.J + p.K - 2 < Cardinality(p.shapes) THEN {} ELSE {"every_shape_used"})
Fails(kind, X, p) == CASE kind = "pillar" -> PillarFails(X, p) [] kind = "arch" -> ArchFails(X, p) [] kind = "dome" -> DomeFails(X, p)
                       [] kind = "tower" -> TowerFails(X, p) [] kind = "stack" -> StackFails(X, p) [] kind = "ground" -> GroundFails(X, p) [] OTHER -> {"unknown_scene"}
=============================================================================
