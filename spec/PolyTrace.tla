----------------------------- MODULE PolyTrace ------------------------------
EXTENDS Poly, TraceRun
RStart(ev) == [ k |-> 0 ]
Complete(ev) == /\ { << t.i, t.j >> : t \in Range(ev.p) } = Monos(ev.order) /\ Len(ev.p) = Cardinality(Monos(ev.order))
                /\ \A k \in 1..Len(ev.p) : k = MonoIndex(ev.p[k].i, ev.p[k].j)
PolyFails(ev) ==
  (IF Complete(ev) THEN {} ELSE {"monomials"})
  \cup (IF \A k \in 1..Len(ev.at) : ev.at[k].v = Eval4(ev.p, ev.at[k].x, ev.at[k].y) THEN {} ELSE {"evaluation"})
  \cup (IF ev.text = Text(ev.p) \/ (Text(ev.p) = << >> /\ ev.text = << "0" >>) THEN {} ELSE {"text"})
  \cup (IF Len(ev.d) = 2 /\ \A a \in 1..2 : SamePoly(ev.d[a], Diff(ev.p, a)) THEN {} ELSE {"derivative"})
  \cup (IF \A a \in 1..2 : SamePoly(ev.dd[a], Diff(Diff(ev.p, 1), a)) THEN {} ELSE {"derivative_of_derivative"})
  \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
(* interpolation through the first points, of values of the polynomials q (coefficients off by at most 1/64 of a quarter) *)
InterFails(ev) ==
  IF Len(ev.r) # Len(ev.q) THEN {"interpolation"}
  ELSE (IF \A k \in 1..Len(ev.r), t \in Monos(ev.order) : Abs(CoefOf(ev.r[k], t[1], t[2]) - 64 * CoefOf(ev.q[k], t[1], t[2])) <= 1 THEN {} ELSE {"interpolation"})
       \cup (IF \A k \in 1..Len(ev.r) : { << t.i, t.j >> : t \in Range(ev.r[k]) } = Monos(ev.order) THEN {} ELSE {"interpolation"})
Dirs == { << a, b, c >> : a \in -2..2, b \in -2..2, c \in -2..2 }
(* eigenpairs: values in 1/64, vectors (columns) in 1/256; n (n - 1) cov = Scatter *)
CloudFails(ev) ==
  LET n == Len(ev.pts)  S == Scatter(ev.pts)  nn == n * (n - 1)  d == ev.dir
      sd == MApp(S, d)  c == VCross(sd, d)
      big == VDot(d, sd)
      tr == S[1] + S[5] + S[9]
  IN (IF \A a \in 1..3 : Abs(ev.mean[a] * n - 64 * SumOf(ev.pts, a)) <= n THEN {} ELSE {"mean_point"})
     \cup (IF \A k \in 1..3 : LET v == ev.vecs[k]  e == MApp(S, v) IN
              /\ \A a \in 1..3 : Abs(64 * e[a] - nn * ev.vals[k] * v[a]) <= 64 * tr * 2 + nn * 256
              /\ Abs(VDot(v, v) - 65536) <= 1024
           THEN {} ELSE {"principal_directions"})
     \cup (IF Abs((ev.vals[1] + ev.vals[2] + ev.vals[3]) * nn - 64 * tr) <= 2 * nn THEN {} ELSE {"principal_variances"})
     \cup (IF /\ Abs(VDot(d, d) - 65536) <= 1024
              /\ \A u \in Dirs : u = VZero \/ (big \div VDot(d, d)) * VDot(u, u) + 2 * VDot(u, u) >= VDot(u, MApp(S, u))
           THEN {} ELSE {"direction_of_most_variance"})
VecFails(ev) ==
  LET a == ev.a  b == ev.b
      t == ev.frame[1]  bb == ev.frame[2]  n == ev.frame[3]
      K == 1024
      K2(x) == Abs(VDot(x, x) - K * K) <= 4 * K
      big == SetMax({ Abs(a[i]) : i \in 1..3 })
  IN (IF ev.less = LexLess(a, b) /\ ev.greater = LexLess(b, a) /\ ev.le = ~LexLess(b, a) /\ ev.ge = ~LexLess(a, b) THEN {} ELSE {"lexicographic_order"})
     \cup (IF ev.cross = VCross(a, b) THEN {} ELSE {"cross_product"})
     \cup (IF ev.maxc \in 1..3 /\ Abs(a[ev.maxc]) = big THEN {} ELSE {"largest_component"})
     \cup (IF a = VZero THEN {} ELSE
            (IF /\ K2(t) /\ K2(bb) /\ K2(n) /\ Abs(VDot(t, bb)) <= 4 * K /\ Abs(VDot(t, n)) <= 4 * K /\ Abs(VDot(bb, n)) <= 4 * K
                /\ LET c == VCross(t, bb) IN \A i \in 1..3 : Abs(c[i] - K * n[i]) <= 4 * K
             THEN {} ELSE {"orthonormal_frame"})
            \cup (IF VDot(n, a) > 0 /\ (LET c == VCross(n, a) IN \A i \in 1..3 : Abs(c[i]) <= 8) /\ ev.unit = n THEN {} ELSE {"unit_vector"}))
     \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
(* sin(x) / x at k quarter turns, in 1/4096 *)
SincFails(ev) ==
  IF \A i \in 1..Len(ev.k) : LET k == ev.k[i]  s == IF k % 4 = 1 THEN 1 ELSE IF k % 4 = 3 THEN -1 ELSE 0 IN
        IF k = 0 THEN ev.v[i] = 4096 ELSE Abs(ev.v[i] * k * 1608 - 4096 * 1024 * s) <= 1608 * Abs(k) + 4096
  THEN {} ELSE {"sinc"}
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "refuse" THEN (IF ev.out = "ok" THEN {"bad_arguments_refused"} ELSE {})
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "poly" THEN PolyFails(ev)
     ELSE IF ev.op = "inter" THEN InterFails(ev)
     ELSE IF ev.op = "cloud" THEN CloudFails(ev)
     ELSE IF ev.op = "vec" THEN VecFails(ev)
     ELSE IF ev.op = "sinc" THEN SincFails(ev)
     ELSE {"unknown_event"} ]
=============================================================================
