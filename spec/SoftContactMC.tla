--------------------------- MODULE SoftContactMC ---------------------------
(* Two affinely deformed boxes pushed around on a lattice: the geometric facts that the trace clauses  *)
(* rely on.                                                                                           *)
EXTENDS SoftContact
CONSTANTS MaxMoves
VARIABLES a, b, n
vars == << a, b, n >>
Env == 100
Res == 16
Shear == << 1, 1, 0, 0, 1, 0, 0, 0, 1 >>
Shear2 == << 1, 0, 0, 0, 1, 0, -1, 0, 1 >>
Mats == { MId, Shear, MMul(RotZ, Shear2), MMul(Shear, Shear2) }
Halves == { << 500, 500, 500 >>, << 300, 500, 1000 >>, << 2000, 500, 2000 >> }
Body(h, M) == [r |-> VZero, M |-> M, h |-> h]
Init == /\ \E h \in Halves, M \in Mats : a = Body(h, M)
        /\ \E h \in Halves, M \in Mats : b = Body(h, M)
        /\ n = 0
Place ==
  /\ n = 0
  /\ \E ax \in 1..3, s \in {-1, 1}, g \in {-90, 50, 99, 101}, off \in {-700, 0} :
       b' = [b EXCEPT !.r = [i \in 1..3 |-> IF i = ax THEN s * (Hi(a)[i] + Hi(b)[i] + g) ELSE off]]
  /\ n' = 1 /\ UNCHANGED a
Push ==
  /\ n \in 1..MaxMoves
  /\ \E ax \in 1..3, s \in {-50, 50} : b' = [b EXCEPT !.r[ax] = @ + s]
  /\ n' = n + 1 /\ UNCHANGED a
Deform ==      \* the material frame of a is deformed further
  /\ n \in 1..MaxMoves
  /\ \E m \in {Shear, RotX} : a' = [a EXCEPT !.M = MMul(@, m)]
  /\ n' = n + 1 /\ UNCHANGED b
Spec == Init /\ [][Place \/ Push \/ Deform]_vars
cellA == Cell(a, Boundary(a, Env), Res)
Deep == DeepCorners(a, b, Env, cellA)
Inverse == MMul(a.M, Adj(a.M)) = MId /\ MMul(Adj(a.M), a.M) = MId /\ MDet(a.M) = 1
CloseMeansBoundsOverlap == Deep # {} => AABBDist(a, b) <= Env
FarMeansNoContact == AABBDist(a, b) > Env => Deep = {}
OneFace == \A c \in Deep : Cardinality(FaceOf(a, c, cellA)) = 1
CornersOnSurface == \A c \in Corners(b) : Inf(Excess(b, c)) = 0
LocalWorld == \A c \in Corners(b) : World(a, Local(a, c)) = c
NormalIsCovector ==   \* the covector is perpendicular to the face and its pairing with a motion is the change of the gap
  \A c \in Deep : LET k == CHOOSE j \in FaceOf(a, c, cellA) : TRUE
                      m == FaceCovector(a, c, k)
                  IN /\ \A j \in 1..3 : j # k => VDot(m, << a.M[j], a.M[3 + j], a.M[6 + j] >>) = 0
                     /\ \A d \in { << 10, 0, 0 >>, << 0, 10, 0 >>, << 0, 0, 10 >> } :
                          Excess(a, VAdd(c, d))[k] = Excess(a, c)[k] + VDot(m, d)
=============================================================================
