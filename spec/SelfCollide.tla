---------------------------- MODULE SelfCollide ----------------------------
(* Overlapping surface triangles.  Coordinates are integers of 1/16.  A triangle is a 3-tuple of       *)
(* points.  Two triangles of one body collide when they share no vertex and an edge of one passes      *)
(* through the other; triangles of different bodies are candidates when their bounds, each grown by    *)
(* the envelope, overlap.                                                                             *)
EXTENDS Lib
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Vol(a, b, c, d) == VDot(VCross(VSub(b, a), VSub(c, a)), VSub(d, a))
Edges(t) == { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> }
(* the segment e meets the (closed) triangle t in one point *)
Meets(e, t) ==
  LET p == e[1]  q == e[2]
      d1 == Vol(t[1], t[2], t[3], p)  d2 == Vol(t[1], t[2], t[3], q)
      s == { Sgn(Vol(p, q, t[1], t[2])), Sgn(Vol(p, q, t[2], t[3])), Sgn(Vol(p, q, t[3], t[1])) }
  IN d1 # d2 /\ Sgn(d1) * Sgn(d2) <= 0 /\ ~({-1, 1} \subseteq s)
(* ... strictly inside both *)
Pierces(e, t) ==
  LET p == e[1]  q == e[2]
      d1 == Vol(t[1], t[2], t[3], p)  d2 == Vol(t[1], t[2], t[3], q)
      s == { Sgn(Vol(p, q, t[1], t[2])), Sgn(Vol(p, q, t[2], t[3])), Sgn(Vol(p, q, t[3], t[1])) }
  IN Sgn(d1) * Sgn(d2) = -1 /\ (s = {1} \/ s = {-1})
ShareVertex(t, u) == \E i \in 1..3, j \in 1..3 : t[i] = u[j]
Touch(t, u) == (\E e \in Edges(t) : Meets(e, u)) \/ (\E e \in Edges(u) : Meets(e, t))
Cross(t, u) == (\E e \in Edges(t) : Pierces(e, u)) \/ (\E e \in Edges(u) : Pierces(e, t))
May(t, u) == ~ShareVertex(t, u) /\ Touch(t, u)
Must(t, u) == ~ShareVertex(t, u) /\ Cross(t, u)
TLo(t, i) == Min2(t[1][i], Min2(t[2][i], t[3][i]))
THi(t, i) == Max2(t[1][i], Max2(t[2][i], t[3][i]))
Gap(t, u) == SetMax({ Max2(TLo(t, i) - THi(u, i), TLo(u, i) - THi(t, i)) : i \in 1..3 })
=============================================================================
