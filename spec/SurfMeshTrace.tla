--------------------------- MODULE SurfMeshTrace ----------------------------
(* make: one generator call.  m = [V, T] (coordinates 1/S, rounded; indices 1-based), kind and its     *)
(* parameters.  hull: convex hull of integer points.  xform: an operation on a mesh, before and after.  *)
EXTENDS SurfMesh, TraceRun
RDiv(a, b) == (a \div b) + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
RStart(ev) == 0
Rad2(v) == v[1] * v[1] + v[3] * v[3]
(* 1000 n sin(2 pi / n) *)
NSin == << 0, 0, 2598, 4000, 4755, 5196, 5473, 5657, 5785, 5878, 5948, 6000 >>
FrustumVol6(prof, n) == LET X == SumSeq([i \in 1..(Len(prof) - 1) |-> LET a == prof[i] b == prof[i + 1]
                                              IN (b[2] - a[2]) * (a[1] * a[1] + a[1] * b[1] + b[1] * b[1])])
                        IN (X \div 1000) * NSin[n]
AtRing(v, p) == Abs(v[2] - p[2]) <= 1 /\ Abs(Rad2(v) - p[1] * p[1]) <= 2 * p[1] + 2
(* the vertices of a surface of revolution about the y-axis, for its profile (radius, height) *)
RevolutionFails(m, prof, n) ==
  LET N == Len(prof)  NV == Len(m.V)
      ring(i) == { k \in 1..NV : AtRing(m.V[k], prof[i]) }
      \* profile points closer than the resolution share their vertices
      same(i) == { q \in 2..(N - 1) : Abs(prof[q][1] - prof[i][1]) <= 1 /\ Abs(prof[q][2] - prof[i][2]) <= 1 }
      even(i) == LET R == ring(i) s(f) == SumSetF([k \in R |-> f[k]], R)
                     tol == Cardinality(R)
                     q == prof[i][1] * Cardinality(R) + Cardinality(R)
                 IN /\ Abs(s([k \in R |-> m.V[k][1]])) <= tol /\ Abs(s([k \in R |-> m.V[k][3]])) <= tol
                    /\ Abs(s([k \in R |-> m.V[k][1] * m.V[k][1] - m.V[k][3] * m.V[k][3]])) <= 2 * q
                    /\ Abs(s([k \in R |-> m.V[k][1] * m.V[k][3]])) <= 2 * q
      volx == FrustumVol6(prof, n)
  IN (IF NV = (N - 2) * n + 2 THEN {} ELSE {"vertex_count"})
  \cup (IF \A i \in 2..(N - 1) : Cardinality(ring(i)) >= n * Cardinality(same(i)) THEN {} ELSE {"rings_on_the_profile"})
  \cup (IF \A i \in 2..(N - 1) : prof[i][1] <= 2 \/ Cardinality(same(i)) # 1 \/ Cardinality(ring(i)) # n \/ even(i) THEN {} ELSE {"slices_evenly_spread"})
  \cup (IF \A i \in {1, N} : \E k \in 1..NV : AtRing(m.V[k], prof[i]) THEN {} ELSE {"poles_on_the_axis"})
  \cup (IF \A k \in 1..NV : \E i \in 1..N : AtRing(m.V[k], prof[i]) THEN {} ELSE {"vertices_on_the_profile"})
  \cup (IF Abs(Vol6(m) - volx) <= volx \div 12 + 2000 THEN {} ELSE {"volume"})
ImplicitFails(m, f(_), tol) == IF \A k \in 1..Len(m.V) : Abs(f(m.V[k])) <= tol THEN {} ELSE {"vertices_on_the_surface"}
Ext(m, lo, hi) == IF NearV(Lower(m), lo, 1) /\ NearV(Upper(m), hi, 1) THEN {} ELSE {"extents"}
YExt(m, lo, hi) == IF Near(Lower(m)[2], lo, 1) /\ Near(Upper(m)[2], hi, 1) THEN {} ELSE {"extents"}
CvxTol(m) == LET e == SetMax({ Upper(m)[i] - Lower(m)[i] : i \in 1..3 }) IN 6 * (e + 4) * (e + 4)
MakeFails(ev) ==
  LET m == TLCEval(ev.m)  p == ev.p  k == ev.kind
      topo == ClosedSurface(m, IF k = "torus" THEN 0 ELSE 2)
  IN IF ~\A i \in 1..Len(m.V) : OnLattice(m.V[i]) THEN {"finite"}
     ELSE IF ~topo THEN {"closed_oriented_surface"}
     ELSE (IF Vol6(m) > 0 THEN {} ELSE {"outward_orientation"})
     \cup CASE k = "box" -> Ext(m, << -p[1], -p[2], -p[3] >>, << p[1], p[2], p[3] >>)
                \cup (IF Len(m.V) = 8 /\ Vol6(m) = 48 * p[1] * p[2] * p[3] /\ Convex(m, 0) THEN {} ELSE {"box_shape"})
            [] k = "cuboid" ->      \* p: the eight corners in the documented order
                (IF Len(m.V) = 8 /\ Range(m.V) = Range(p) THEN {} ELSE {"cuboid_corners"})
                \cup (LET faces == { {p[1], p[2], p[3], p[4]}, {p[5], p[8], p[7], p[6]}, {p[5], p[1], p[4], p[8]}, {p[2], p[6], p[7], p[3]}, {p[8], p[4], p[3], p[7]}, {p[6], p[2], p[1], p[5]} }
                      IN IF \A t \in 1..12 : \E f \in faces : { m.V[m.T[t][i]] : i \in 1..3 } \subseteq f THEN {} ELSE {"cuboid_faces"})
            [] k \in {"sweep", "cylinder", "cone", "conical"} -> RevolutionFails(m, ev.prof, ev.slices)
                \cup (IF k # "sweep" => Convex(m, CvxTol(m)) THEN {} ELSE {"convex"})
            [] k = "sphere" -> ImplicitFails(m, LAMBDA v : VDot(v, v) - p[1] * p[1], 2 * p[1] + 2) \cup YExt(m, -p[1], p[1])
                \cup (IF Len(m.V) = (ev.segments - 2) * ev.slices + 2 THEN {} ELSE {"vertex_count"})
                \cup (IF Convex(m, CvxTol(m)) THEN {} ELSE {"convex"})
            [] k = "ellipsoid" ->
                LET q(v) == << RDiv(v[1] * 256, p[1]), RDiv(v[2] * 256, p[2]), RDiv(v[3] * 256, p[3]) >>
                IN ImplicitFails(m, LAMBDA v : VDot(q(v), q(v)) - 65536, 1024 + (200000 \div SetMin({p[1], p[2], p[3]}))) \cup YExt(m, -p[2], p[2])
                \cup (IF Len(m.V) = (ev.segments - 2) * ev.slices + 2 THEN {} ELSE {"vertex_count"})
            [] k = "capsule" ->
                LET ax(v) == << v[1], Max2(0, Abs(v[2]) - p[2]), v[3] >>
                IN ImplicitFails(m, LAMBDA v : VDot(ax(v), ax(v)) - p[1] * p[1], 2 * p[1] + 4) \cup YExt(m, -(p[1] + p[2]), p[1] + p[2])
                \cup (IF Len(m.V) = (ev.segments - 2) * ev.slices + 2 THEN {} ELSE {"vertex_count"})
                \cup (IF Convex(m, CvxTol(m)) THEN {} ELSE {"convex"})
            [] k = "torus" ->      \* p = (major, minor); the axis is z
                LET f(v) == LET w == VDot(v, v) + p[1] * p[1] - p[2] * p[2] IN w * w - 4 * p[1] * p[1] * (v[1] * v[1] + v[2] * v[2])
                IN ImplicitFails(m, f, 24 * (p[1] + p[2]) * (p[1] + p[2]) * (p[1] + p[2]))
                \cup (IF Len(m.V) = ev.segments * ev.slices THEN {} ELSE {"vertex_count"})
            [] OTHER -> {"unknown_kind"}
HullFails(ev) ==
  LET m == TLCEval(ev.m)
  IN IF ~\A i \in 1..Len(m.V) : OnLattice(m.V[i]) THEN {"finite"}
     ELSE IF ~ClosedSurface(m, 2) THEN {"closed_oriented_surface"}
     ELSE (IF Vol6(m) > 0 THEN {} ELSE {"outward_orientation"})
     \cup (IF Range(m.V) \subseteq Range(ev.pts) /\ Cardinality(Range(m.V)) = Len(m.V) THEN {} ELSE {"hull_vertices_are_points"})
     \cup (IF \A k \in 1..Len(m.T), i \in 1..Len(ev.pts) : VDot(Normal(m, k), VSub(ev.pts[i], m.V[m.T[k][1]])) <= 0 THEN {} ELSE {"hull_contains_all_points"})
Apply(ev, v) == CASE ev.kind = "translate" -> VAdd(v, ev.p)
                  [] ev.kind = "rotate" -> MApp(ev.p, v)
                  [] ev.kind = "scale" -> << ev.p[1] * v[1], ev.p[2] * v[2], ev.p[3] * v[3] >>
XformFails(ev) ==
  LET m == TLCEval(ev.m)  r == TLCEval(ev.after)  k == ev.kind
  IN IF ~\A i \in 1..Len(r.V) : OnLattice(r.V[i]) THEN {"finite"}
     ELSE CASE k \in {"translate", "rotate", "scale"} ->
               (IF r.T = m.T /\ Len(r.V) = Len(m.V) /\ \A i \in 1..Len(m.V) : NearV(r.V[i], Apply(ev, m.V[i]), 0) THEN {} ELSE {"rigid_or_scaled_image"})
            [] k = "aabb" -> (IF ev.lo = Lower(m) /\ ev.hi = Upper(m) /\ r = m THEN {} ELSE {"bounding_box"})
            [] k = "unit" ->     \* before: 1/S; after: 1/1024
               LET lo == Lower(m) hi == Upper(m)  e == SetMax({ hi[i] - lo[i] : i \in 1..3 })
                   img(v) == [i \in 1..3 |-> RDiv((2 * v[i] - lo[i] - hi[i]) * 512, e) + RDiv((lo[i] + hi[i]) * 512, ev.S)]
               IN IF r.T = m.T /\ Len(r.V) = Len(m.V) /\ \A i \in 1..Len(m.V) : NearV(r.V[i], img(m.V[i]), 2) THEN {} ELSE {"unit_size_around_its_centre"}
            [] k = "sort" ->
               (IF Len(r.V) = Len(m.V) /\ Len(r.T) = Len(m.T) /\ ValidIndices(r) THEN {} ELSE {"sorted_mesh_same_size"})
               \cup (IF \A i \in 1..(Len(r.V) - 1) : VDot(ev.p, r.V[i]) <= VDot(ev.p, r.V[i + 1]) THEN {} ELSE {"vertices_sorted_along_the_axis"})
               \cup (IF \A i \in 1..(Len(r.T) - 1) : SumSeq(r.T[i]) <= SumSeq(r.T[i + 1]) THEN {} ELSE {"triangles_sorted"})
               \cup (IF ValidIndices(r) /\ Len(r.V) = Len(m.V) => Shape(r) = Shape(m) THEN {} ELSE {"same_shape_after_sorting"})
            [] k = "copy" -> IF r = m THEN {} ELSE {"mesh_owns_its_arrays"}
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "refuse" THEN (IF ev.out = "ok" THEN {"degenerate_profile_is_refused"} ELSE {})
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "make" THEN MakeFails(ev)
     ELSE IF ev.op = "hull" THEN HullFails(ev)
     ELSE IF ev.op = "xform" THEN XformFails(ev)
     ELSE {"unknown_event"} ]
=============================================================================
