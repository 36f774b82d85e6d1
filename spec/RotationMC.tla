----------------------------- MODULE RotationMC -----------------------------
(* Every pair of small integer quaternions: the algebra, matrices and rigid transformations agree.      *)
EXTENDS Rotation
CONSTANTS M
VARIABLES a, b, v, st
vars == << a, b, v, st >>
Comps == { k - M : k \in 0..(2 * M) }
Quats == { q \in { << s, x, y, z >> : s \in Comps, x \in Comps, y \in Comps, z \in Comps } : QNorm2(q) # 0 }
Cubes == { QMat(q) : q \in { p \in Quats : QNorm2(p) = 1 } }
Init == a \in Quats /\ b = << 1, 0, 0, 0 >> /\ v = << 1, 2, -3 >> /\ st = 0
Next == st = 0 /\ st' = 1 /\ b' \in Quats /\ v' \in { << 2, 1, 0 >>, << -1, 3, 1 >> } /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
NormsMultiply == QNorm2(QMul(a, b)) = QNorm2(a) * QNorm2(b)
MatrixOfProduct == QMat(QMul(a, b)) = MMul(QMat(a), QMat(b))
MatrixRotates == MApp(QMat(a), v) = QRot(a, v)
MatrixOrthogonal == MMul(QMat(a), MTr(QMat(a))) = Scaled(QNorm2(a) * QNorm2(a), MId) /\ MDet(QMat(a)) = QNorm2(a) * QNorm2(a) * QNorm2(a)
ConjugateInverts == QMat(QConj(a)) = MTr(QMat(a)) /\ QMul(a, QConj(a)) = << QNorm2(a), 0, 0, 0 >>
SignFree == QMat(QNeg(a)) = QMat(a)
LengthKept == LET w == QRot(a, v) IN VDot(w, w) = QNorm2(a) * QNorm2(a) * VDot(v, v)
Frames == (QNorm2(a) = 1 /\ QNorm2(b) = 1) =>
            LET A == [m |-> QMat(a), r |-> v]  B == [m |-> QMat(b), r |-> << 1, -2, 5 >>]
            IN /\ XPoint(XConcat(B, A), << 3, 1, 4 >>) = XPoint(B, XPoint(A, << 3, 1, 4 >>))
               /\ XConcat(XInverse(A), A) = [m |-> MId, r |-> VZero]
               /\ XPoint(B, XPoint(XFromTo(A, B), << 3, 1, 4 >>)) = XPoint(A, << 3, 1, 4 >>)
=============================================================================
