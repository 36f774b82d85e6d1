------------------------------ MODULE MasonryMC -----------------------------
(* Structures with exact coordinates are built stone by stone, and one stone may go astray: the structure is        *)
(* complete exactly when all stones stand where they belong.                                                       *)
EXTENDS Masonry
CONSTANTS Kinds
(* four segments; levels of a dome at (0,5) (3,4) (4,3) *)
Ring == << << 500, 0 >>, << 400, 300 >>, << 300, 400 >> >>
Quarter(k, a) == LET f[i \in 0..4] == IF i = 0 THEN a ELSE MApp(RotY, f[i - 1]) IN f[k]
DomePoint(l, s, m, out) == LET r == Ring[l][1]  y == Ring[l][2] IN Quarter((s + m) % 4, << IF out THEN 2 * r ELSE r, IF out THEN 2 * y ELSE y, 0 >>)
DomeStone(l, s) == << DomePoint(l, s, 0, TRUE), DomePoint(l, s, 1, TRUE), DomePoint(l + 1, s, 1, TRUE), DomePoint(l + 1, s, 0, TRUE),
                      DomePoint(l, s, 0, FALSE), DomePoint(l, s, 1, FALSE), DomePoint(l + 1, s, 1, FALSE), DomePoint(l + 1, s, 0, FALSE) >>
Box(x1, x2, y1, y2, z1, z2) == << << x1, y1, z1 >>, << x2, y1, z1 >>, << x2, y2, z1 >>, << x1, y2, z1 >>, << x1, y1, z2 >>, << x2, y1, z2 >>, << x2, y2, z2 >>, << x1, y2, z2 >> >>
(* one layer of a tower with four cubes; tan of 45 degrees *)
TowerStone(l, s) == LET B == Box(-400, 400, l * 500, (l + 1) * 500, -600, -400) IN [i \in 1..8 |-> Quarter(s, B[i])]
StackStone(k) == LET B == Box(-200, 200, 0, 300, -100, 100) IN [i \in 1..8 |-> LET a == EighthTurns(k % 8, B[i]) IN << a[1], a[2] + 300 * k, a[3] >>]
Plan(kind) == CASE kind = "dome" -> [i \in 1..8 |-> DomeStone(((i - 1) \div 4) + 1, (i - 1) % 4)]
                [] kind = "tower" -> [i \in 1..4 |-> TowerStone(0, i - 1)]
                [] kind = "stack" -> [i \in 1..4 |-> StackStone(i - 1)]
Par(kind) == CASE kind = "dome" -> [L |-> 2, G |-> 4, ri |-> 500, ro |-> 1000, levels |-> << 0, 600, 800 >>]
               [] kind = "tower" -> [L |-> 1, G |-> 4, ri |-> 400, ro |-> 600, h |-> 500, tan |-> 1000, safe |-> 1000, cubes |-> TRUE, chord |-> 707, bond |-> 383]
               [] kind = "stack" -> [K |-> 4, w |-> 400, h |-> 300, d |-> 200]
Moves == { VZero, << 40, 0, 0 >>, << 0, 40, 0 >>, << 0, 0, 40 >> }
VARIABLES kind, X, astray, F
vars == << kind, X, astray, F >>
Frames == { [m |-> MId, r |-> VZero], [m |-> MMul(RotX, RotZ), r |-> << 100, -200, 300 >>] }
Put(G, V) == [i \in 1..Len(V) |-> VAdd(MApp(G.m, V[i]), G.r)]
Init == kind \in Kinds /\ X = << >> /\ astray = FALSE /\ F \in Frames
Lay == \E mv \in Moves : /\ Len(X) < Len(Plan(kind))
          /\ LET V == Plan(kind)[Len(X) + 1] IN X' = Append(X, Put(F, [i \in 1..8 |-> VAdd(V[i], mv)]))
          /\ (mv # VZero => ~astray) /\ astray' = (astray \/ mv # VZero) /\ UNCHANGED << kind, F >>
Double == /\ X # << >> /\ ~astray /\ Len(X) = Len(Plan(kind)) - 1 /\ X' = Append(X, X[1]) /\ astray' = TRUE /\ UNCHANGED << kind, F >>
Next == Lay \/ Double
Spec == Init /\ [][Next]_vars
Seen == [k \in 1..Len(X) |-> [i \in 1..8 |-> InFrame(F, X[k][i])]]
Decides == Len(X) = 0 \/ ((Fails(kind, Seen, Par(kind)) = {}) <=> (Len(X) = Len(Plan(kind)) /\ ~astray))
=============================================================================
