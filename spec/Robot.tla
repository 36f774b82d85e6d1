-------------------------------- MODULE Robot -------------------------------
(* A robot description (URDF): links with a collision mesh and an inertial frame, joints that place the frame   *)
(* of the child link in the frame of the parent.  Frames are [m, r] (rotation of the cube, integer vector);     *)
(* angles are in quarter turns.                                                                                 *)
EXTENDS Lib
FId == [m |-> MId, r |-> VZero]
FAt(X, p) == VAdd(MApp(X.m, p), X.r)
FMul(B, A) == [m |-> MMul(B.m, A.m), r |-> FAt(B, A.r)]        \* first A then B
FInv(X) == [m |-> MTr(X.m), r |-> VNeg(MApp(MTr(X.m), X.r))]
RECURSIVE Turn(_, _)
Turn(R, k) == IF k % 4 = 0 THEN MId ELSE MMul(R, Turn(R, (k % 4) - 1))
(* roll about x, then pitch about y, then yaw about z, all about the fixed axes *)
RPY(a) == MMul(Turn(RotZ, a[3]), MMul(Turn(RotY, a[2]), Turn(RotX, a[1])))
FrameOf(o) == [m |-> RPY(o.rpy), r |-> o.xyz]
(* a joint counts when it is revolute; a link counts when it has a mesh *)
Moving(R) == { k \in 1..Len(R.joints) : R.joints[k].type = "revolute" }
Solid(R) == { k \in 1..Len(R.links) : R.links[k].solid }
Solids(R) == { R.links[k].name : k \in Solid(R) }
LinkOf(R, x) == R.links[CHOOSE k \in 1..Len(R.links) : R.links[k].name = x]
Above(R, x) == { k \in Moving(R) : R.joints[k].child = x }
Below(R, x) == { k \in Moving(R) : R.joints[k].parent = x }
Roots(R) == { x \in Solids(R) : Above(R, x) = {} }
(* the frame of a link in the world: that of the root is the world *)
RECURSIVE FrameIn(_, _)
FrameIn(R, x) == IF Above(R, x) = {} THEN FId
                 ELSE LET j == R.joints[CHOOSE k \in Above(R, x) : TRUE] IN FMul(FrameIn(R, j.parent), FrameOf(j.origin))
(* the body sits in the inertial frame, the mesh in the collision frame *)
BodyIn(R, x) == FMul(FrameIn(R, x), FrameOf(LinkOf(R, x).inertial))
Stretch(s, v) == << s[1] * v[1], s[2] * v[2], s[3] * v[3] >>
PointsIn(R, x) == LET l == LinkOf(R, x)  X == FMul(FrameIn(R, x), FrameOf(l.collision)) IN [i \in 1..Len(l.V) |-> FAt(X, Stretch(l.scale, l.V[i]))]
HingeAt(R, k) == FrameIn(R, R.joints[k].child).r
(* directions of axes: along one coordinate axis of the joint's frame, of any length *)
Dir(a) == [i \in 1..3 |-> IF a[i] > 0 THEN 1 ELSE IF a[i] < 0 THEN -1 ELSE 0]
HingeAlong(R, k) == MApp(FrameIn(R, R.joints[k].child).m, Dir(R.joints[k].axis))
=============================================================================
