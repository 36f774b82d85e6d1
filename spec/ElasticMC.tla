------------------------------ MODULE ElasticMC ------------------------------
(* A deformation is changed step by step: one entry of A, a rotation in front, a rotation behind, or a stretch (for   *)
(* the corotational model, whose rotation and stretch are explicit).                                                  *)
EXTENDS Elastic
CONSTANTS B, Lames, S
L1 == { << 2, 3 >>, << 5, 1 >> }
VARIABLES A, R, U
vars == << A, R, U >>
E(k) == [i \in 1..9 |-> IF i = k THEN 1 ELSE 0]
SymE(k) == IF k \in {1, 5, 9} THEN E(k) ELSE MAdd(E(k), MTr(E(k)))
Rots == {RotX, RotY, RotZ}
Init == A = MScale(2, MId) /\ R = MId /\ U = MScale(2, MId)
Bound(a) == \A i \in 1..9 : Abs(a[i]) <= B
Entry == \E k \in 1..9, s \in {-1, 1} : A' = MAdd(A, MScale(s, E(k))) /\ Bound(A') /\ SumTo([i \in 1..9 |-> Abs(A'[i] - 2 * MId[i])], 9) <= S /\ UNCHANGED << R, U >>
Stretch == \E k \in {1, 2, 3, 5, 6, 9}, s \in {-1, 1} : U' = MAdd(U, MScale(s, SymE(k))) /\ PosDef(U') /\ Bound(U') /\ SumTo([i \in 1..9 |-> Abs(U'[i] - 2 * MId[i])], 9) <= S + 1 /\ UNCHANGED << A, R >>
Turn == \E q \in Rots : R' = MMul(q, R) /\ UNCHANGED << A, U >>
Next == (R = MId /\ U = MScale(2, MId) /\ Entry) \/ (A = MScale(2, MId) /\ (Stretch \/ Turn))
Spec == Init /\ [][Next]_vars
Base == R = MId /\ U = MScale(2, MId)
Polar == A = MScale(2, MId)
(* the energy and the stress only see the deformation: rotating the result rotates the stress, rotating the material turns it back *)
Objective == Base => \A l \in Lames, q \in Rots :
   /\ SvkW128(MMul(q, A), l[1], l[2]) = SvkW128(A, l[1], l[2]) /\ SvkP16(MMul(q, A), l[1], l[2]) = MMul(q, SvkP16(A, l[1], l[2]))
   /\ SnhPoly128(MMul(q, A), l[1], l[2]) = SnhPoly128(A, l[1], l[2]) /\ SnhPD(MMul(q, A), l[1], l[2]) = MMul(q, SnhPD(A, l[1], l[2])) /\ SnhDen(MMul(q, A)) = SnhDen(A)
Isotropic == \A l \in Lames, q \in Rots :
   /\ Base => SvkW128(MMul(A, q), l[1], l[2]) = SvkW128(A, l[1], l[2]) 
   /\ Base => SvkP16(MMul(A, q), l[1], l[2]) = MMul(SvkP16(A, l[1], l[2]), q)
   /\ Base => SnhPoly128(MMul(A, q), l[1], l[2]) = SnhPoly128(A, l[1], l[2]) /\ SnhPD(MMul(A, q), l[1], l[2]) = MMul(SnhPD(A, l[1], l[2]), q)
   /\ CorW8(R, MMul(MTr(q), MMul(U, q)), l[1], l[2]) = CorW8(R, U, l[1], l[2])
(* P F^T is symmetric: the stress exerts no net torque *)
NoTorque == \A l \in Lames : (Base => Sym(MMul(SvkP16(A, l[1], l[2]), MTr(A))) /\ Sym(MMul(SnhPD(A, l[1], l[2]), MTr(A)))) /\ Sym(MMul(CorP2(R, U, l[1], l[2]), MTr(MMul(R, U))))
(* the stress is the gradient of the energy; all differences are exact: along one entry of A the SVK energy is a quartic  *)
(* and the SNH polynomial a quadratic, along a stretch the corotational energy is a quadratic                            *)
Gradient == \A l \in Lames :
   /\ Base => \A k \in 1..9 : LET w(h) == SvkW128(MAdd(A, MScale(h, E(k))), l[1], l[2])
                      IN 8 * (w(1) - w(-1)) - (w(2) - w(-2)) = 12 * 4 * SvkP16(A, l[1], l[2])[k]
   /\ Base => \A k \in 1..9 : LET w(h) == SnhPoly128(MAdd(A, MScale(h, E(k))), l[1], l[2])  t == Tr(RightCauchy4(A)) + 4
                      IN (w(1) - w(-1)) * t - 2 * 512 * l[2] * 2 * A[k] = 4 * SnhPD(A, l[1], l[2])[k]
   /\ \A k \in {1, 2, 3, 5, 6, 9} : CorW8(R, MAdd(U, SymE(k)), l[1], l[2]) - CorW8(R, MAdd(U, MScale(-1, SymE(k))), l[1], l[2])
                      = 2 * 2 * Dot9(CorP2(R, U, l[1], l[2]), MMul(R, SymE(k)))
(* no stress and no energy at rest, however rotated; otherwise SVK and corotational energies are not negative *)
Rest == \A l \in Lames :
   /\ SvkW128(A, l[1], l[2]) >= 0 /\ CorW8(R, U, l[1], l[2]) >= 0
   /\ (Green8(A) = MScale(0, MId) => SvkP16(A, l[1], l[2]) = MScale(0, MId) /\ SvkW128(A, l[1], l[2]) = 0)
   /\ (CorW8(R, U, l[1], l[2]) = 0 <=> U = MScale(2, MId)) /\ (U = MScale(2, MId) => CorP2(R, U, l[1], l[2]) = MScale(0, MId))
   /\ (A = MScale(2, MId) => SnhPD(A, l[1], l[2]) = MScale(0, MId) /\ SnhPoly128(A, l[1], l[2]) = 0)
Det == MDet(A) = Dot9(<< A[1], A[2], A[3], 0, 0, 0, 0, 0, 0 >>, Cof(A)) /\ MMul(A, MTr(Cof(A))) = MScale(MDet(A), MId)
=============================================================================
