-------------------------- MODULE SoftContactSolve --------------------------
(* Contact impulses between tetrahedral bodies, in fixed point (S = 1/1024).                           *)
(* node = [m, fixed, x, u]: mass (integer), whether it may not move (fixed body or Dirichlet            *)
(* condition), position and velocity before the contact impulses (1/S).                                *)
(* contact = [a, b, wa, wb, n, g, mu4]: the four global nodes of A's and of B's tetrahedron, weights    *)
(* in quarters (they sum to 4), the unit normal from A to B (1/S), the gap, friction in quarters.       *)
EXTENDS Lib
S == 1024
RDiv(a, b) == (a \div b) + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
VRDiv(v, b) == << RDiv(v[1], b), RDiv(v[2], b), RDiv(v[3], b) >>
Dot(a, b) == RDiv(a[1] * b[1], S) + RDiv(a[2] * b[2], S) + RDiv(a[3] * b[3], S)
MaxN(v) == Max2(Abs(v[1]), Max2(Abs(v[2]), Abs(v[3])))
Weighted(w, idx, U) == VRDiv(<< SumSeq([k \in 1..4 |-> w[k] * U[idx[k]][1]]), SumSeq([k \in 1..4 |-> w[k] * U[idx[k]][2]]), SumSeq([k \in 1..4 |-> w[k] * U[idx[k]][3]]) >>, 4)
(* velocity of B's material point against A's *)
Rel(c, U) == VSub(Weighted(c.wb, c.b, U), Weighted(c.wa, c.a, U))
Tangential(c, v) == VSub(v, VRDiv(VScale(Dot(c.n, v), c.n), S))
(* the weight with which contact c acts on node i, in quarters: positive for B, negative for A *)
Share(c, i) == SumSeq([k \in 1..4 |-> (IF c.b[k] = i THEN c.wb[k] ELSE 0) - (IF c.a[k] = i THEN c.wa[k] ELSE 0)])
Touches(c, i) == \E k \in 1..4 : c.a[k] = i \/ c.b[k] = i
(* 48 / (effective mass) of one contact: sum of squared weights over the masses of nodes that can move; *)
(* masses divide 48, so the result is an integer of 1/768                                              *)
Compliance(nodes, c) == SumSeq([i \in 1..Len(nodes) |-> IF nodes[i].fixed THEN 0 ELSE Share(c, i) * Share(c, i) * (48 \div nodes[i].m)])
(* the impulse (1/S) of a single frictionless contact with approach velocity y: 768 y / compliance *)
SingleImpulse(nodes, c, y) == LET k == Compliance(nodes, c) IN IF k = 0 \/ y >= 0 THEN 0 ELSE RDiv(-768 * y, k)
Apply(nodes, c, P) == TLCEval([i \in 1..Len(nodes) |-> IF nodes[i].fixed THEN nodes[i].u
                       ELSE VAdd(nodes[i].u, VRDiv(VScale(P * Share(c, i), c.n), 4 * nodes[i].m * S))])
Vel(nodes) == TLCEval([i \in 1..Len(nodes) |-> nodes[i].u])
Momentum(nodes, U) == [d \in 1..3 |-> SumSeq([i \in 1..Len(nodes) |-> nodes[i].m * U[i][d]])]
Sq(a) == LET h == RDiv(a, 8) IN h * h
KE2(nodes, U) == SumSeq([i \in 1..Len(nodes) |-> IF nodes[i].fixed THEN 0 ELSE nodes[i].m * (Sq(U[i][1]) + Sq(U[i][2]) + Sq(U[i][3]))])
=============================================================================
