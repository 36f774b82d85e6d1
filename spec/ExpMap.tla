------------------------------- MODULE ExpMap -------------------------------
(* Rotation vectors v = theta n with theta = k quarter turns and n = m / L, m integer, |m| = L.         *)
(* theta is used in 1/1024; matrices come out times L * L.                                              *)
EXTENDS Lib
CosQ(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
SinQ(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Theta(k) == (k * 1608495) \div 1000
(* cosine and sine of half the angle, in 1/4096 *)
CosH(k) == CASE k % 8 = 0 -> 4096 [] k % 8 \in {1, 7} -> 2896 [] k % 8 \in {3, 5} -> -2896 [] k % 8 = 4 -> -4096 [] OTHER -> 0
SinH(k) == CosH(k - 2)
MOuter(a, b) == << a[1]*b[1], a[1]*b[2], a[1]*b[3], a[2]*b[1], a[2]*b[2], a[2]*b[3], a[3]*b[1], a[3]*b[2], a[3]*b[3] >>
MCross(a) == << 0, -a[3], a[2], a[3], 0, -a[1], -a[2], a[1], 0 >>
MAdd(a, b) == [i \in 1..9 |-> a[i] + b[i]]
MScale(k, a) == [i \in 1..9 |-> k * a[i]]
(* L^2 R, by the rotation formula *)
RotL2(k, m, L) == MAdd(MAdd(MScale(CosQ(k) * L * L, MId), MScale(SinQ(k) * L, MCross(m))), MScale(1 - CosQ(k), MOuter(m, m)))
(* L^2 theta J, J the left Jacobian: the rotation changes by the small rotation J dv when v changes by dv; in 1/1024 *)
JacL2(k, m, L) == MAdd(MAdd(MScale(1024 * SinQ(k) * L * L, MId), MScale(1024 * (1 - CosQ(k)) * L, MCross(m))), MScale(Theta(k) - 1024 * SinQ(k), MOuter(m, m)))
=============================================================================
