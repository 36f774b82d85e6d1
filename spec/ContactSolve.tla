---------------------------- MODULE ContactSolve ----------------------------
(* The laws a converged set of contact impulses must obey, in fixed point (S = 1/1024).               *)
(* body = [fixed, m, I (9-tuple, world, integer), r, v, w, mat]; v, w: velocity before the impulses,   *)
(*   dv, dw: change by external forces; contact = [A, B, p, n, g, x (normal impulse), f (size of the   *)
(*   friction impulse)];  table = sequence of [a, b, mu4, eps4] (quarters), the first is the default.  *)
EXTENDS Lib
S == 1024
RDiv(a, b) == (a \div b) + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
VRDiv(v, b) == [i \in 1..3 |-> RDiv(v[i], b)]
Cross(a, b) == VRDiv(VCross(a, b), S)
Dot(a, b) == RDiv(a[1] * b[1], S) + RDiv(a[2] * b[2], S) + RDiv(a[3] * b[3], S)
MaxN(v) == Max2(Abs(v[1]), Max2(Abs(v[2]), Abs(v[3])))
PointVel(b, v, w, p) == VAdd(v, Cross(w, VSub(p, b.r)))

(* material pair lookup, in either order, else the default *)
Interaction(table, a, b) ==
  LET hit == { i \in 2..Len(table) : { table[i].a, table[i].b } = {a, b} /\ (a = b => table[i].a = table[i].b) }
  IN IF hit = {} THEN table[1] ELSE table[CHOOSE i \in hit : TRUE]
Mu4(st, c) == Interaction(st.table, st.bodies[c.A].mat, st.bodies[c.B].mat).mu4
Eps4(st, c) == IF st.bounce THEN Interaction(st.table, st.bodies[c.A].mat, st.bodies[c.B].mat).eps4 ELSE 0

(* velocities: u = before, u2 = after impulses and external forces; du[k] = impulse part *)
After(b, d) == [v |-> VAdd(VAdd(b.v, b.dv), d.v), w |-> VAdd(VAdd(b.w, b.dw), d.w)]
RelVel(st, c, U) == VSub(PointVel(st.bodies[c.B], U[c.B].v, U[c.B].w, c.p), PointVel(st.bodies[c.A], U[c.A].v, U[c.A].w, c.p))
RelSpin(c, U) == Dot(c.n, VSub(U[c.B].w, U[c.A].w))
Before(st) == [k \in 1..Len(st.bodies) |-> [v |-> st.bodies[k].v, w |-> st.bodies[k].w]]
(* drift correction asked for by pre-stabilization: a fraction of the penetration per step, limited *)
PreStab(st, c) ==
  LET vn == Dot(c.n, RelVel(st, c, Before(st)))
      pull == Max2(-(st.maxgap * st.idt), RDiv(c.g * st.idt * st.red4, 4))
  IN IF st.pre /\ c.g < -st.mingap /\ vn <= 0 THEN pull ELSE 0
AmbiguousPreStab(st, c) ==     \* rounding could decide
  st.pre /\ ((Abs(Dot(c.n, RelVel(st, c, Before(st)))) <= 2 /\ ~st.exact) \/ Abs(c.g + st.mingap) <= 1)
Target(st, c) == Dot(c.n, RelVel(st, c, Before(st)))
Y(st, c, U2) == Dot(c.n, RelVel(st, c, U2)) + RDiv(Eps4(st, c) * Target(st, c), 4) + PreStab(st, c)

Impulse(b, d) == VScale(b.m, d.v)                       \* linear impulse received
AngImpulse(b, d) == MApp(b.I, d.w)
Total(st, D) == LET n == Len(st.bodies)
                    free == { k \in 1..n : ~st.bodies[k].fixed }
                IN [i \in 1..3 |-> SumSetF([k \in free |-> Impulse(st.bodies[k], D[k])[i]], free)]
TotalAng(st, D) == LET n == Len(st.bodies)
                       free == { k \in 1..n : ~st.bodies[k].fixed }
                   IN [i \in 1..3 |-> SumSetF([k \in free |-> AngImpulse(st.bodies[k], D[k])[i] + Cross(st.bodies[k].r, Impulse(st.bodies[k], D[k]))[i]], free)]
(* the impulse of frictionless contacts on body k *)
NormalImpulse(st, cs, k) ==
  [i \in 1..3 |-> SumSeq([j \in 1..Len(cs) |-> LET c == cs[j]  s == (IF c.B = k THEN 1 ELSE 0) - (IF c.A = k THEN 1 ELSE 0)
                                               IN s * RDiv(c.x * c.n[i], S)])]
NormalAngImpulse(st, cs, k) ==
  [i \in 1..3 |-> SumSeq([j \in 1..Len(cs) |-> LET c == cs[j]  s == (IF c.B = k THEN 1 ELSE 0) - (IF c.A = k THEN 1 ELSE 0)
                                               IN s * RDiv(c.x * Cross(VSub(c.p, st.bodies[k].r), c.n)[i], S)])]
(* kinetic energy, in 1/64 units to stay small *)
Sq(a) == LET h == RDiv(a, 8) IN h * h
KE2(st, U) == SumSeq([k \in 1..Len(st.bodies) |->
     LET b == st.bodies[k]  w == U[k].w  Lw == MApp(b.I, U[k].w)
     IN IF b.fixed THEN 0 ELSE b.m * (Sq(U[k].v[1]) + Sq(U[k].v[2]) + Sq(U[k].v[3]))
        + RDiv(w[1], 8) * RDiv(Lw[1], 8) + RDiv(w[2], 8) * RDiv(Lw[2], 8) + RDiv(w[3], 8) * RDiv(Lw[3], 8)])
(* A box lying flat on a fixed floor, all contacts with the same gap g <= 0: one step, along the up axis. *)
(* vn, a (per step), vt: 1/S;  e4, mu4: quarters.                                                      *)
FlatNormal(q) ==
  LET deep == q.g < -q.mingap
      want == RDiv(-(q.e4 * q.vn), 4) + (IF q.pre /\ deep /\ q.vn <= 0 THEN Min2(q.maxgap * q.idt, RDiv(-q.g * q.idt * q.red4, 4)) ELSE 0)
  IN Max2(q.vn + q.a, want)
FlatSlide(q) == LET push == RDiv(q.mu4 * (FlatNormal(q) - q.vn - q.a), 4) IN IF q.vt > 0 THEN Max2(0, q.vt - push) ELSE Min2(0, q.vt + push)
FlatMove(q) == RDiv(FlatNormal(q), q.idt) + (IF q.post /\ q.g < -q.mingap THEN -q.g ELSE 0)
=============================================================================
