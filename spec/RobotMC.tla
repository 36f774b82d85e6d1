------------------------------- MODULE RobotMC ------------------------------
(* The traversal from the root: links are placed one joint at a time, in any order of the joints.  Whatever the order, *)
(* every link ends at the product of the joint frames above it, and the joint has one place and axis in the world      *)
(* whether it is seen from the parent's or from the child's body.                                                      *)
EXTENDS Robot
CONSTANTS LinkN, Offsets, Turns
SomeOffsets == { VZero, << 1, -2, 3 >> }
SomeTurns == { VZero, << 1, 1, 0 >>, << 0, 1, 3 >>, << 2, 3, 1 >> }
FewTurns == { << 1, 0, 3 >>, << 0, 1, 1 >> }
FewOffsets == { << 1, -2, 3 >> }
VARIABLES R, placed, todo
vars == << R, placed, todo >>
O(x, a) == [xyz |-> x, rpy |-> a]
Frames == { O(x, a) : x \in Offsets, a \in Turns }
Tet == << VZero, Unit(1), Unit(2), Unit(3) >>
Name(k) == << "a", "b", "c", "d" >>[k]
Trees == { p \in [2..LinkN -> 1..LinkN] : \A k \in 2..LinkN : p[k] < k }
Init == /\ \E p \in Trees, f \in [2..LinkN -> Frames], e \in Frames, k0 \in 1..LinkN :
              R = [ links |-> [k \in 1..LinkN |-> [name |-> Name(k), solid |-> TRUE, collision |-> IF k = k0 THEN e ELSE O(VZero, VZero), inertial |-> IF k = k0 THEN O(VZero, VZero) ELSE e, scale |-> << 1, 2, 1 >>, V |-> Tet]],
                    joints |-> [k \in 1..(LinkN - 1) |-> [type |-> "revolute", parent |-> Name(p[k + 1]), child |-> Name(k + 1), origin |-> f[k + 1], axis |-> << 0, 0, 2 >>]] ]
        /\ placed = ("a" :> FId) /\ todo = 1..(LinkN - 1)
Place(k) == LET j == R.joints[k] IN /\ k \in todo /\ j.parent \in DOMAIN placed
                                    /\ placed' = placed @@ (j.child :> FMul(placed[j.parent], FrameOf(j.origin)))
                                    /\ todo' = todo \ {k} /\ UNCHANGED R
Next == \E k \in 1..(LinkN - 1) : Place(k)
Spec == Init /\ [][Next]_vars
SameWhateverTheOrder == \A x \in DOMAIN placed : placed[x] = FrameIn(R, x)
NeverStuck == todo # {} => \E k \in todo : R.joints[k].parent \in DOMAIN placed
AllRotations == \A x \in DOMAIN placed : IsRot(placed[x].m)
HingeSeenFromBoth == \A k \in Moving(R) : LET j == R.joints[k]  P == BodyIn(R, j.parent)  C == BodyIn(R, j.child) IN
    /\ FAt(P, FAt(FInv(P), HingeAt(R, k))) = FAt(C, FAt(FInv(C), HingeAt(R, k)))
    /\ VDot(HingeAlong(R, k), HingeAlong(R, k)) = 1
    /\ MApp(P.m, MApp(MTr(P.m), HingeAlong(R, k))) = MApp(C.m, MApp(MTr(C.m), HingeAlong(R, k)))
(* the mesh does not depend on where the inertial frame is *)
MeshOnly == \A x \in Solids(R) : LET P == BodyIn(R, x) IN \A i \in 1..4 : FAt(P, FAt(FInv(P), PointsIn(R, x)[i])) = PointsIn(R, x)[i]
(* a frame put before the joints of the root moves everything below it rigidly *)
Rigid == \A k \in Moving(R) : R.joints[k].parent = "a" =>
            LET G == [m |-> RotY, r |-> << 1, 2, 3 >>]
                j == R.joints[k]
                x == j.child
            IN PointsIn(R, x)[2] = FAt(FMul(FrameOf(j.origin), FMul(FInv(FrameOf(j.origin)), FrameIn(R, x))), FAt(FrameOf(LinkOf(R, x).collision), Stretch(<< 1, 2, 1 >>, Tet[2])))
               /\ FMul(G, FMul(FInv(G), FrameIn(R, x))) = FrameIn(R, x)
=============================================================================
