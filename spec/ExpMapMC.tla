------------------------------ MODULE ExpMapMC ------------------------------
(* The formulas for every axis and number of quarter turns: rotations, composition about one axis, half *)
(* angle squares, and the Jacobian maps the axis to itself.                                             *)
EXTENDS ExpMap
VARIABLES m, k, j
vars == << m, k, j >>
Axes == { << a, b, c >> : a \in {-2, -1, 0, 1, 2}, b \in {-2, -1, 0, 1, 2}, c \in {-2, -1, 0, 1, 2} }
Len2 == VDot(m, m)
L == IF Len2 = 1 THEN 1 ELSE IF Len2 = 4 THEN 2 ELSE 3
Init == m \in { a \in Axes : VDot(a, a) \in {1, 4, 9} } /\ k = 0 /\ j = 0
Next == \/ k < 8 /\ k' = k + 1 /\ UNCHANGED << m, j >>
        \/ j < 4 /\ j' = j + 1 /\ UNCHANGED << m, k >>
Spec == Init /\ [][Next]_vars
R(n) == RotL2(n, m, L)
IsRotation == MMul(R(k), MTr(R(k))) = MScale(L * L * L * L, MId) /\ MDet(R(k)) = L * L * L * L * L * L
AxisFixed == MApp(R(k), m) = VScale(L * L, m) /\ MApp(JacL2(k, m, L), m) = VScale(L * L * Theta(k), m)
Composes == MMul(R(k), R(j)) = MScale(L * L, R(k + j))
FullTurn == R(k + 4) = R(k) /\ CosH(k + 8) = CosH(k) /\ CosH(k + 4) = -CosH(k) /\ SinH(k + 4) = -SinH(k)
HalfAngles == /\ Abs(CosH(k) * CosH(k) - SinH(k) * SinH(k) - 4096 * 4096 * CosQ(k)) <= 4096
              /\ Abs(2 * CosH(k) * SinH(k) - 4096 * 4096 * SinQ(k)) <= 4096
(* (1 - cos) and sin are the moments of the angle: J at quarter turns solves (R - 1) = theta [n] J ... *)
JacobianOfRotation == \* [m] theta J = L (R - 1) : turning about the axis by theta
  MMul(MCross(m), JacL2(k, m, L)) = MScale(1024 * L, MAdd(RotL2(k, m, L), MScale(-(L * L), MId)))
=============================================================================
