----------------------------- MODULE RigidStepMC -----------------------------
(* Bodies in free flight, stepped: laws of the discrete motion.                                      *)
EXTENDS RigidStep
CONSTANTS MaxSteps
VARIABLES b, b0, n, q, dn, dd
vars == << b, b0, n, q, dn, dd >>
G1 == [kind |-> "Gravity", g |-> 40, up |-> << 0, S, 0 >>, alpha |-> 0, beta |-> 0]
G2 == [kind |-> "Gravity", g |-> 40, up |-> << 0, -S, 0 >>, alpha |-> 0, beta |-> 0]
D1 == [kind |-> "Damping", g |-> 0, up |-> VZero, alpha |-> 4, beta |-> 2]
ForceSets == { << >>, << G1 >>, << D1 >>, << G1, D1 >>, << G1, G2 >> }
Qs == { << QS, 0, 0, 0 >>, << 11585, 11585, 0, 0 >>, << 8192, 8192, 8192, 8192 >>, << 11585, 0, 11585, 0 >> }
Vel == { << 0, 0, 0 >>, << 2 * S, 0, -S >> }
Spin == { << 0, 0, 0 >>, << 0, 2 * S, 0 >>, << S, S, 0 >>, << S, -S, 3 * S >> }
Init ==
  /\ \E f \in BOOLEAN, m \in {1, 3}, I \in { << 2, 2, 2 >>, << 2, 4, 5 >> }, F \in ForceSets, qq \in Qs, v \in Vel, w \in Spin :
       b = [fixed |-> f, m |-> m, I |-> I, forces |-> F, r |-> << 0, S, 0 >>, q |-> qq, v |-> v, w |-> w]
  /\ b0 = b /\ n = 0 /\ q = b.q
  /\ \E d \in { << 1, 16 >>, << 1, 8 >> } : dn = d[1] /\ dd = d[2]
Step ==
  /\ n < MaxSteps
  /\ LET v == FreeV(b, dn, dd)  w == FreeW(b, dn, dd)
     IN /\ b' = [b EXCEPT !.v = v, !.w = w, !.r = NewR(b, v, dn, dd)]      \* the orientation is kept: one step at a time is exact
        /\ q' = IF b.fixed THEN b.q ELSE NewQDir(b, w, dn, dd)
  /\ n' = n + 1 /\ UNCHANGED << b0, dn, dd >>
Spec == Init /\ [][Step]_vars
FixedNeverMoves == b.fixed => b = b0
Only(fs) == Range(b0.forces) \subseteq fs
ConstantVelocityWithoutForces == Only({}) => b.v = b0.v /\ (b.fixed \/ NearV(b.r, VAdd(b0.r, VRDiv(VScale(n * dn, b0.v), dd)), n))
FreeFall == b0.forces = << G1 >> /\ ~b0.fixed =>
            NearV(b.v, VSub(b0.v, << 0, (10 * S * n * dn) \div dd, 0 >>), n)
Falls == b0.forces = << G1 >> /\ ~b0.fixed => NearV(b.r, << b0.r[1] + RDiv(n * dn * b0.v[1], dd),
            b0.r[2] + RDiv(n * dn * b0.v[2], dd) - RDiv(10 * S * dn * dn * n * (n + 1), 2 * dd * dd), b0.r[3] + RDiv(n * dn * b0.v[3], dd) >>, 3 * n)
OppositeGravitiesCancel == b0.forces = << G1, G2 >> => b.v = b0.v
IsotropicSpinIsConstant == b0.I[1] = b0.I[2] /\ b0.I[2] = b0.I[3] /\ Beta(b0.forces) = 0 => NearV(b.w, b0.w, 2 * n)
PrincipalSpinIsConstant == (b0.w[1] = 0 /\ b0.w[3] = 0 /\ b0.q = << QS, 0, 0, 0 >>) /\ Beta(b0.forces) = 0 => NearV(b.w, b0.w, 2 * n)
DampingSlowsDown == b0.forces = << D1 >> => VDot(b.v, b.v) <= VDot(b0.v, b0.v)
RotatesAboutTheSpin ==    \* the step multiplies the orientation from the left by a rotation about w
  n > 0 /\ ~b.fixed /\ b.w # VZero =>
    LET d == QMul(q, << b0.q[1], -b0.q[2], -b0.q[3], -b0.q[4] >>)
        v == [i \in 1..3 |-> RDiv(d[i + 1], QS)]
    IN d[1] > 0 /\ VDot(v, b.w) > 0 /\ \A i \in 1..3 : Abs(VCross(v, b.w)[i]) <= 8 * S
Rests == b0.v = VZero /\ b0.w = VZero /\ Only({ D1 }) => b = b0
=============================================================================
