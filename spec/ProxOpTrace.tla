----------------------------- MODULE ProxOpTrace -----------------------------
EXTENDS ProxOp, TraceRun
RStart(ev) == [fn |-> ev.fn]
F(ok, name) == IF ok THEN {} ELSE {name}
RStep(st, ev) ==
  [ st |-> st,
    fails |-> IF ev.out # "ok" THEN {"outcome"} ELSE IF ~OnLattice(ev.x) THEN {"finite"}
      ELSE IF ev.xn <= 0 \/ st.fn = "origin" THEN F(ev.x = VZero, "no_friction_without_normal_force")
      ELSE LET a == ev.a  x == ev.x  x6 == [i \in 1..3 |-> (x[i] + 8) \div 16]  d == [i \in 1..3 |-> 16 * ev.z[i] - x6[i]]
           IN F(NearV(ev.x2, x, 2), "projecting_twice_changes_nothing")
              \cup F(\A i \in 1..3 : a[i] = 0 => x[i] = 0, "flat_axis")
              \cup (IF InsideFlat(a, ev.z, 4) THEN F(\A i \in Nz(a) : Near(x[i], 256 * ev.z[i], 2), "points_inside_stay")
                    ELSE F(Surface(a, x), "lands_on_the_boundary") \cup F(Normal(a, d, x6, 1), "closest_point")
                         \cup F(\A i \in 1..3 : x[i] * ev.z[i] >= 0 /\ Abs(x[i]) <= 256 * Abs(ev.z[i]) + 2, "moves_towards_the_origin")) ]
=============================================================================
