------------------------------ MODULE SoftStep ------------------------------
(* One time step (1/16) of elastic bodies made of Saint Venant-Kirchhoff material, without contact, in exact integers.   *)
(* A body b = [V, T, fixed, lumped, dir, trac, la, mu, rho, c, g, x, u]: rest and current coordinates, velocities, gravity, *)
(* loads, Lame parameters, density and viscosity are integers; every element has 6 x volume 1 or 2.                      *)
(* The number in a name is the scaling that makes the quantity an integer.                                               *)
EXTENDS TetMesh, Elastic
Cols(a, b, c) == << a[1], b[1], c[1], a[2], b[2], c[2], a[3], b[3], c[3] >>
P3(X, t, i) == X[t[i] + 1]
D(X, t) == Cols(VSub(P3(X, t, 2), P3(X, t, 1)), VSub(P3(X, t, 3), P3(X, t, 1)), VSub(P3(X, t, 4), P3(X, t, 1)))
Adj(m) == MTr(Cof(m))
(* twice the deformation gradient *)
F2(V, X, t) == LET v == Vol6(V, t)  m == MMul(D(X, t), Adj(D(V, t))) IN TLCEval([i \in 1..9 |-> (2 * m[i]) \div v])
(* six times the outward vector of a third of the face opposite node a *)
Out6(V, t, a) == LET f == FaceOf(t, a - 1) IN VCross(VSub(V[f[2] + 1], V[f[1] + 1]), VSub(V[f[3] + 1], V[f[1] + 1]))
Inside(n, t) == \E a \in 1..4 : t[a] = n
Local(n, t) == CHOOSE a \in 1..4 : t[a] = n
RECURSIVE VSumTo(_, _)
VSumTo(f, n) == IF n = 0 THEN VZero ELSE LET a == TLCEval(VSumTo(f, n - 1))  b == TLCEval(f[n]) IN << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
VSumSeq(f) == VSumTo(f, Len(f))
P16s(b, x) == TLCEval([e \in 1..Len(b.T) |-> SvkP16(F2(b.V, x, b.T[e]), b.la, b.mu)])
V6(b, n) == SumSeq([e \in 1..Len(b.T) |-> IF Inside(n, b.T[e]) THEN Vol6(b.V, b.T[e]) ELSE 0])
Elastic96(b, P, n) == VSumSeq([e \in 1..Len(b.T) |-> IF Inside(n, b.T[e]) THEN MApp(P[e], Out6(b.V, b.T[e], Local(n, b.T[e]))) ELSE VZero])
(* the area of a triangle: 2A = k where k^2 is the squared length of its cross product *)
Cross(x, t) == VCross(VSub(x[t[2] + 1], x[t[1] + 1]), VSub(x[t[3] + 1], x[t[1] + 1]))
Sqrt(s) == CHOOSE k \in 0..200 : k * k = s
HasSqrt(s) == \E k \in 0..200 : k * k = s
Traction6(b, x, n) == VSumSeq([i \in 1..Len(b.trac) |-> IF n \in Range(b.trac[i].t) THEN VScale(Sqrt(VDot(Cross(x, b.trac[i].t), Cross(x, b.trac[i].t))), b.trac[i].l) ELSE VZero])
Gravity24(b, n) == VScale(b.rho * V6(b, n), b.g)
SumU(u, t) == VAdd(VAdd(P3(u, t, 1), P3(u, t, 2)), VAdd(P3(u, t, 3), P3(u, t, 4)))
Damping120(b, u, n) == IF b.lumped THEN VScale(-5 * b.c * V6(b, n), u[n + 1])
   ELSE VSumSeq([e \in 1..Len(b.T) |-> IF Inside(n, b.T[e]) THEN VScale(-b.c * Vol6(b.V, b.T[e]), VAdd(u[n + 1], SumU(u, b.T[e]))) ELSE VZero])
(* where the conditions put the nodes before the forces are evaluated *)
IsDir(b, n) == \E i \in 1..Len(b.dir) : b.dir[i].i = n
DirVal(b, n) == LET I == { i \in 1..Len(b.dir) : b.dir[i].i = n } IN b.dir[SetMax(I)].v
XEff(b) == TLCEval([k \in 1..Len(b.V) |-> IF IsDir(b, k - 1) THEN DirVal(b, k - 1) ELSE b.x[k]])
UEff(b) == TLCEval([k \in 1..Len(b.V) |-> IF b.fixed \/ IsDir(b, k - 1) THEN VZero ELSE b.u[k]])
Upright(b) == \A e \in 1..Len(b.T) : Vol6(XEff(b), b.T[e]) > 0
Held(b, n) == b.fixed \/ IsDir(b, n)
Force480(b, P, n) == VAdd(VAdd(VScale(5, Elastic96(b, P, n)), VScale(20, Gravity24(b, n))), VAdd(VScale(4, Damping120(b, UEff(b), n)), VScale(80, Traction6(b, XEff(b), n))))
(* lumped: u' = u + F480 / (320 rho V6);  x' = x + u'/16 *)
W(b, n) == b.rho * V6(b, n)
NewU320W(b, P, n) == IF Held(b, n) THEN VZero ELSE VAdd(VScale(320 * W(b, n), UEff(b)[n + 1]), Force480(b, P, n))
NewX5120W(b, P, n) == IF IsDir(b, n) THEN VScale(5120 * W(b, n), DirVal(b, n)) ELSE VAdd(VScale(5120 * W(b, n), XEff(b)[n + 1]), NewU320W(b, P, n))
(* consistent mass: sum over the elements of rho v6 (d_n + sum d) = F480 / 64, for the velocity change d *)
MassTimes(b, d, n) == VSumSeq([e \in 1..Len(b.T) |-> IF Inside(n, b.T[e]) THEN VScale(b.rho * Vol6(b.V, b.T[e]), VAdd(d[n + 1], SumU(d, b.T[e]))) ELSE VZero])
(* energies of a body that is not fixed *)
Kinetic192(b) == IF b.fixed THEN 0 ELSE SumSeq([e \in 1..Len(b.T) |-> b.rho * Vol6(b.V, b.T[e]) * VDot(SumU(b.u, b.T[e]), SumU(b.u, b.T[e]))])
Potential24(b) == IF b.fixed THEN 0 ELSE SumSeq([e \in 1..Len(b.T) |-> -b.rho * Vol6(b.V, b.T[e]) * VDot(b.g, SumU(b.x, b.T[e]))])
Elastic768(b) == IF b.fixed THEN 0 ELSE SumSeq([e \in 1..Len(b.T) |-> Vol6(b.V, b.T[e]) * SvkW128(F2(b.V, b.x, b.T[e]), b.la, b.mu)])
=============================================================================
