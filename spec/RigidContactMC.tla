--------------------------- MODULE RigidContactMC ---------------------------
(* Two boxes pushed around on a lattice, in all axis-aligned orientations: the geometric facts that    *)
(* the trace clauses rely on (which corners are certainly close, their normal and their gap).         *)
EXTENDS RigidContact
CONSTANTS MaxMoves
VARIABLES a, b, n
vars == << a, b, n >>
Env == 100
Res == 16
Rots == { MId, RotX, RotZ, MMul(RotX, RotY), MMul(RotZ, MMul(RotX, RotX)) }
Halves == { << 500, 500, 500 >>, << 300, 500, 1000 >>, << 2000, 500, 2000 >> }
Body(h, R) == [r |-> VZero, R |-> R, h |-> h]
Init == /\ \E h \in Halves, R \in Rots : a = Body(h, R)
        /\ \E h \in Halves, R \in Rots : b = Body(h, R)
        /\ n = 0
Place ==   \* put b against a along an axis
  /\ n = 0
  /\ \E ax \in 1..3, s \in {-1, 1}, g \in {-90, 0, 50, 99, 101, 300}, off \in {-700, 0, 400} :
       b' = [b EXCEPT !.r = [i \in 1..3 |-> IF i = ax THEN s * (Hi(a)[i] + Hi(b)[i] + g) ELSE off]]
  /\ n' = 1 /\ UNCHANGED a
Push ==
  /\ n \in 1..MaxMoves
  /\ \E ax \in 1..3, s \in {-50, 50} : b' = [b EXCEPT !.r[ax] = @ + s]
  /\ n' = n + 1 /\ UNCHANGED a
Spec == Init /\ [][Place \/ Push]_vars
cellA == Cell(a, Boundary(a, Env), Res)
Deep == DeepCorners(a, b, Env, cellA)
CloseMeansBoundsOverlap == Deep # {} => AABBDist(a, b) <= Env       \* the bounding volumes (grown by Env) report the pair
FarMeansNoContact == AABBDist(a, b) > Env => Deep = {}
OneFace == \A c \in Deep : Cardinality(FaceOf(a, c, cellA)) = 1
CornersOnSurface == \A c \in Corners(b) : Inf(Excess(b, c)) = 0
GapIsInterval == \A c \in Corners(b) : Inf(Excess(a, c)) <= Max2(Inf(Excess(a, c)), PosSum(Excess(a, c)))
NormalLeavesA ==       \* moving along the normal increases the gap by exactly that much
  \A c \in Deep : LET k == CHOOSE j \in FaceOf(a, c, cellA) : TRUE
                      nn == FaceNormal(a, c, k)
                      c2 == VAdd(c, [i \in 1..3 |-> nn[i] \div 10])
                  IN VDot(nn, nn) = 1000000 /\ Excess(a, c2)[k] = Excess(a, c)[k] + 100
LocalWorld == \A c \in Corners(b) : World(a, Local(a, c)) = c
=============================================================================
