------------------------------ MODULE Rotation ------------------------------
(* Rotations as integer quaternions (s, x, y, z), as integer matrices over the squared norm, and rigid  *)
(* transformations.                                                                                     *)
EXTENDS Lib
QNorm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
QVec(q) == << q[2], q[3], q[4] >>
QMul(a, b) == LET v == VAdd(VAdd(VScale(a[1], QVec(b)), VScale(b[1], QVec(a))), VCross(QVec(a), QVec(b)))
              IN << a[1]*b[1] - VDot(QVec(a), QVec(b)), v[1], v[2], v[3] >>
QConj(q) == << q[1], -q[2], -q[3], -q[4] >>
QNeg(q) == << -q[1], -q[2], -q[3], -q[4] >>
QDot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
QScale(k, a) == << k*a[1], k*a[2], k*a[3], k*a[4] >>
QAdd(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4] >>
QOf(v) == << 0, v[1], v[2], v[3] >>
QRot(q, v) == QVec(QMul(QMul(q, QOf(v)), QConj(q)))          \* norm2 times the rotated vector
QMat(q) == LET s == q[1] x == q[2] y == q[3] z == q[4]
           IN << s*s+x*x-y*y-z*z, 2*(x*y-s*z), 2*(x*z+s*y),
                 2*(x*y+s*z), s*s-x*x+y*y-z*z, 2*(y*z-s*x),
                 2*(x*z-s*y), 2*(y*z+s*x), s*s-x*x-y*y+z*z >>
Scaled(k, m) == [i \in 1..9 |-> k * m[i]]
(* rigid transformations with cube rotations (matrices) *)
XPoint(X, p) == VAdd(MApp(X.m, p), X.r)
XConcat(B, A) == [m |-> MMul(B.m, A.m), r |-> VAdd(MApp(B.m, A.r), B.r)]
XInverse(X) == [m |-> MTr(X.m), r |-> VNeg(MApp(MTr(X.m), X.r))]
XFromTo(A, B) == XConcat(XInverse(B), A)
(* a measured quaternion (scale K) points along the integer quaternion q; sg: also the same sign *)
Along(r, q, tol) == /\ \A i \in 1..4 : r[i] # OFF
                    /\ \A i \in 1..4, j \in 1..4 : Abs(r[i]*q[j] - r[j]*q[i]) <= tol * (Abs(q[i]) + Abs(q[j])) + 1
SameDir(r, q, tol) == Along(r, q, tol) /\ QDot(r, q) > 0
UnitAt(r, K, tol) == \A i \in 1..4 : r[i] # OFF /\ Abs(r[i]) <= 2 * K
UnitLen(r, K, tol) == UnitAt(r, K, tol) /\ Abs(QDot(r, r) - K * K) <= tol * 2 * K
Sgn(x) == IF x < 0 THEN -1 ELSE 1
=============================================================================
