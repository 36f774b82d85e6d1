------------------------------ MODULE RigidStep ------------------------------
(* One time step of a rigid body by the semi-implicit Euler method, in fixed point arithmetic.       *)
(*   lengths, velocities, accelerations: integers of 1/S;  quaternions: integers of 1/QS             *)
(*   time step: dn/dd;  masses and principal inertias: integers;  force parameters: quarters         *)
EXTENDS Lib
S == 1024
QS == 16384
RS == 4096
RDiv(a, b) == (2 * a + b) \div (2 * b)
VRDiv(v, b) == [i \in 1..3 |-> RDiv(v[i], b)]

QMul(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
                 a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
                 a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
(* rotation matrix of a unit quaternion, entries of 1/RS *)
QMat(q) == LET w == q[1] x == q[2] y == q[3] z == q[4]
               m == << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
                       2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
                       2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>
           IN [i \in 1..9 |-> RDiv(m[i], (QS * QS) \div RS)]
Norm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
UnitQ(q) == OnLattice(q) /\ Abs(Norm2(q) - QS * QS) <= 4 * QS

(* ---- external forces; a body b = [fixed, m, I, forces, r, q, v, w], force = [kind, g, up, alpha, beta] ---- *)
RECURSIVE SumAcc(_, _, _)
SumAcc(b, fs, k) ==        \* linear acceleration, 1/S
  IF k = 0 THEN VZero
  ELSE VAdd(SumAcc(b, fs, k - 1),
            IF fs[k].kind = "Gravity" THEN VRDiv(VScale(-fs[k].g, fs[k].up), 4)
            ELSE [i \in 1..3 |-> RDiv(-fs[k].alpha * b.v[i], 4 * b.m)])
Beta(fs) == SumSeq([k \in 1..Len(fs) |-> IF fs[k].kind = "Damping" THEN fs[k].beta ELSE 0])
BodyW(b) == VRDiv(MApp(MTr(QMat(b.q)), b.w), RS)
Torque(b) ==               \* in the body frame, 1/S: gyroscopic term and damping
  LET wb == BodyW(b)
      Iw == << b.I[1] * wb[1], b.I[2] * wb[2], b.I[3] * wb[3] >>
  IN VSub(VNeg(VRDiv(VCross(wb, Iw), S)), VRDiv(VScale(Beta(b.forces), wb), 4))
DeltaV(b, dn, dd) == IF b.fixed THEN VZero ELSE VRDiv(VScale(dn, SumAcc(b, b.forces, Len(b.forces))), dd)
DeltaW(b, dn, dd) ==
  IF b.fixed THEN VZero
  ELSE LET t == Torque(b)
           a == [i \in 1..3 |-> RDiv(dn * t[i], dd * b.I[i])]
       IN VRDiv(MApp(QMat(b.q), a), RS)
FreeV(b, dn, dd) == VAdd(b.v, DeltaV(b, dn, dd))
FreeW(b, dn, dd) == VAdd(b.w, DeltaW(b, dn, dd))

(* ---- kinematics, from the new velocities ---- *)
NewR(b, v, dn, dd) == IF b.fixed THEN b.r ELSE VAdd(b.r, VRDiv(VScale(dn, v), dd))
NewQDir(b, w, dn, dd) ==   \* the direction of the new quaternion (its length is 1)
  LET d == QMul(<< 0, w[1], w[2], w[3] >>, b.q)
  IN [i \in 1..4 |-> b.q[i] + RDiv(dn * d[i], 2 * dd * S)]
Collinear(p, q, tol) == \A i \in 1..4, j \in 1..4 : i < j => Abs(p[i] * q[j] - p[j] * q[i]) <= tol

(* ---- energies of the free bodies, 1/S ---- *)
KE(b) == LET wb == BodyW(b) IN
         IF b.fixed THEN 0
         ELSE RDiv(b.m * RDiv(VDot(b.v, b.v), S)
                   + b.I[1] * RDiv(wb[1]*wb[1], S) + b.I[2] * RDiv(wb[2]*wb[2], S) + b.I[3] * RDiv(wb[3]*wb[3], S), 2)
PE(b, gs) == IF b.fixed THEN 0
             ELSE LET G == [i \in 1..3 |-> SumSeq([k \in 1..Len(gs) |-> RDiv(gs[k].g * gs[k].up[i], 4)])]
                  IN b.m * RDiv(VDot(G, b.r), S)
=============================================================================
