----------------------------- MODULE ProxSolver -----------------------------
(* The proximal contact solvers of the soft body simulator: one state machine that decides about     *)
(* the iterates, and four sweeps.  Part 1 (exact): merits in quarters, R-factors as exponents of 2.   *)
EXTENDS Lib
INF == 1000000000
NormInf(v) == IF Len(v) = 0 THEN 0 ELSE SetMax({ Abs(v[i]) : i \in 1..Len(v) })
Diff(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
NewSolver(n) == [x |-> [i \in 1..n |-> 0], sol |-> [i \in 1..n |-> 0], r |-> 0, last |-> INF,
                 it |-> 0, exit |-> -1, res |-> << >>, rej |-> << >>, lam |-> << >>]
(* one iteration whose sweep moved the iterate to xn; exit: -1 running, 0 iterations used up, 1 absolute, 2 relative *)
Iterate(s, xn, c) ==
  LET m == 4 * NormInf(Diff(xn, s.sol))
      s1 == [s EXCEPT !.x = xn, !.res = Append(@, m), !.lam = Append(@, xn)]
  IN IF m < c.abs4 THEN [s1 EXCEPT !.exit = 1, !.rej = Append(@, FALSE)]
     ELSE IF s.last # INF /\ Abs(m - s.last) * c.relD < c.relN * s.last THEN [s1 EXCEPT !.exit = 2, !.rej = Append(@, FALSE)]
     ELSE LET s2 == IF m > s.last THEN [s1 EXCEPT !.x = s.sol, !.r = @ - c.down, !.rej = Append(@, TRUE)]
                    ELSE [s1 EXCEPT !.sol = xn, !.last = m, !.rej = Append(@, FALSE),
                                    !.r = IF s.last # INF /\ s.last - m < c.too4 THEN @ + c.up ELSE @]
          IN [s2 EXCEPT !.it = @ + 1, !.exit = IF s.it + 1 = c.max THEN 0 ELSE -1]

(* Part 2: the sweeps.  A problem p = [K, A, b, mu, fr]: K contacts (blocks of four rows: normal, two       *)
(* tangents, spin); A = J W J^T in quarters (row-major sequences), b and x in 1/1024, mu in eighths, R-factors  *)
(* in 1/65536; fr is the friction operator ("sphere", "origin").                                          *)
FMul(y, r) == ((y \div 1024) * r + ((y % 1024) * r) \div 1024) \div 64
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, 40000)
Friction(p, z, R) ==
  IF p.fr = "origin" \/ R <= 0 THEN VZero
  ELSE LET h == [i \in 1..3 |-> z[i] \div 4]
           nz == 4 * ISqrt(VDot(h, h))
       IN IF nz <= R THEN z ELSE [i \in 1..3 |-> (z[i] * R) \div nz]
RowDot(row, x) == SumTo([j \in 1..Len(x) |-> row[j] * x[j]], Len(x)) \div 4
Z(p, r, x, i) == x[i] - FMul(RowDot(p.A[i], x) + p.b[i], r[i])
(* block k of the next iterate, computed from the iterate x; the friction cone is scaled by the normal force xn *)
Block(p, r, x, k, old) ==
  LET o == 4 * (k - 1)
      n == Max2(0, Z(p, r, x, o + 1))
      R == ((IF old THEN x[o + 1] ELSE n) * p.mu[k]) \div 8
      f == Friction(p, << Z(p, r, x, o + 2), Z(p, r, x, o + 3), Z(p, r, x, o + 4) >>, R)
  IN << n, f[1], f[2], f[3] >>
Put(x, k, blk) == [i \in 1..Len(x) |-> IF (i - 1) \div 4 = k - 1 THEN blk[((i - 1) % 4) + 1] ELSE x[i]]
(* Jacobi: every block from the same iterate; hybrid: friction uses the new normal force of the same contact *)
Jacobi(p, r, x, hybrid) == LET B == [k \in 1..p.K |-> Block(p, r, x, k, ~hybrid)] IN [i \in 1..Len(x) |-> B[((i - 1) \div 4) + 1][((i - 1) % 4) + 1]]
(* Gauss-Seidel: blocks one after the other in the given order, each from the newest iterate *)
RECURSIVE GaussSeidel(_, _, _, _)
GaussSeidel(p, r, x, order) == IF order = << >> THEN x ELSE GaussSeidel(p, r, Put(x, order[1], Block(p, r, x, order[1], FALSE)), Tail(order))
Orders(K) == { f \in [1..K -> 1..K] : \A i, j \in 1..K : i # j => f[i] # f[j] }
=============================================================================
