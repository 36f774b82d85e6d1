------------------------------- MODULE ProxOp -------------------------------
(* Proximal operators of friction: closest point of an ellipsoid with semi-axes a = mu * x_n (a sphere when  *)
(* all are equal, flat where one vanishes).  z in quarters, x in 1/1024, a integers.                       *)
EXTENDS Lib
Nz(a) == { i \in 1..3 : a[i] > 0 }
RECURSIVE Prod(_, _)
Prod(a, S) == IF S = {} THEN 1 ELSE LET i == CHOOSE j \in S : TRUE IN a[i] * a[i] * Prod(a, S \ {i})
(* does the point q (in 1/u) lie inside, ignoring the flat axes *)
InsideFlat(a, q, u) == SumSetF([i \in Nz(a) |-> q[i] * q[i] * Prod(a, Nz(a) \ {i})], Nz(a)) <= u * u * Prod(a, Nz(a))
Inside(a, q, u) == InsideFlat(a, q, u) /\ \A i \in 1..3 : a[i] = 0 => q[i] = 0
(* optimality of x: the way back to z is along the outward normal x_i / a_i^2 *)
Normal(a, d, x, tol) == \A i, j \in Nz(a) : i < j => Abs(d[i] * x[j] * a[i] * a[i] - d[j] * x[i] * a[j] * a[j])
      <= tol * ((Abs(d[i]) + Abs(x[j]) + 1) * a[i] * a[i] + (Abs(d[j]) + Abs(x[i]) + 1) * a[j] * a[j])
Surface(a, x) == LET s == SumSetF([i \in Nz(a) |-> (x[i] \div a[i]) * (x[i] \div a[i])], Nz(a)) IN Abs(s - 1048576) <= 12000
=============================================================================
