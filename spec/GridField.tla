----------------------------- MODULE GridField ------------------------------
(* A regular grid with nodal values and its trilinear field.  g = [n, v]: nodes per axis and the       *)
(* values in linear order (x fastest).  Points q are in quarters of the spacing, from the minimum       *)
(* corner; values come out in 1/64, derivatives (per spacing) in 1/16.                                  *)
EXTENDS Lib
Lin(g, c) == c[1] + g.n[1] * (c[2] + g.n[2] * c[3]) + 1
Node(g, i, j, k) == g.v[Lin(g, << i, j, k >>)]
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
CellOf(g, q) == [a \in 1..3 |-> Clip(q[a] \div 4, 0, g.n[a] - 2)]
W(s, b) == IF b = 1 THEN s ELSE 4 - s
Bits == { << a, b, c >> : a \in 0..1, b \in 0..1, c \in 0..1 }
RECURSIVE SumBits(_, _)
SumBits(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumBits(f, S \ {x})
Corner(g, c, b) == Node(g, c[1] + b[1], c[2] + b[2], c[3] + b[3])
ValueIn(g, c, q) == LET s == [a \in 1..3 |-> q[a] - 4 * c[a]]
                    IN SumBits([b \in Bits |-> Corner(g, c, b) * W(s[1], b[1]) * W(s[2], b[2]) * W(s[3], b[3])], Bits)
Value(g, q) == ValueIn(g, CellOf(g, q), q)
Slope(g, q, a) ==
  LET c == CellOf(g, q)  s == [d \in 1..3 |-> q[d] - 4 * c[d]]
      w(b) == (IF b[a] = 1 THEN 1 ELSE -1) * (IF a = 1 THEN 1 ELSE W(s[1], b[1])) * (IF a = 2 THEN 1 ELSE W(s[2], b[2])) * (IF a = 3 THEN 1 ELSE W(s[3], b[3]))
  IN SumBits([b \in Bits |-> Corner(g, c, b) * w(b)], Bits)
Inside(q, lo, hi, bd) == \A a \in 1..3 : q[a] >= lo[a] + bd /\ q[a] <= hi[a] - bd
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, 46000)
RDiv(a, b) == (a \div b) + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
(* mean curvature by central differences, in 1/64; h = twice the spacing, one of 1, 2, 4 *)
Curv64(g, h, c) ==
  LET N(a, b, d) == Node(g, c[1] + a, c[2] + b, c[3] + d)
      o == N(0, 0, 0)
      X == (4 * (N(1,0,0) - N(-1,0,0))) \div h[1]   Y == (4 * (N(0,1,0) - N(0,-1,0))) \div h[2]   Z == (4 * (N(0,0,1) - N(0,0,-1))) \div h[3]
      XX == (64 * (N(1,0,0) + N(-1,0,0) - 2 * o)) \div (h[1] * h[1])
      YY == (64 * (N(0,1,0) + N(0,-1,0) - 2 * o)) \div (h[2] * h[2])
      ZZ == (64 * (N(0,0,1) + N(0,0,-1) - 2 * o)) \div (h[3] * h[3])
      XY == (16 * (N(1,1,0) - N(-1,1,0) - N(1,-1,0) + N(-1,-1,0))) \div (h[1] * h[2])
      XZ == (16 * (N(1,0,1) - N(-1,0,1) - N(1,0,-1) + N(-1,0,-1))) \div (h[1] * h[3])
      YZ == (16 * (N(0,1,1) - N(0,-1,1) - N(0,1,-1) + N(0,-1,-1))) \div (h[2] * h[3])
      num == XX * (Y*Y + Z*Z) + YY * (X*X + Z*Z) + ZZ * (X*X + Y*Y) - 2 * (XY*X*Y + XZ*X*Z + YZ*Y*Z)
      L == X*X + Y*Y + Z*Z
      R == ISqrt(256 * L)
      k == IF L < 4 THEN RDiv(num, 4) ELSE RDiv(256 * num, L * R)
      m == 128 \div SetMin({h[1], h[2], h[3]})
  IN Clip(k, -m, m)
=============================================================================
