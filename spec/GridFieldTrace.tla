--------------------------- MODULE GridFieldTrace ---------------------------
(* reset: a grid [n, lo, h2] (minimum corner in 1/8, twice the spacing) *)
EXTENDS GridField, TraceRun
RStart(ev) == [ g |-> [n |-> ev.n, v |-> ev.v], lo |-> ev.lo, h2 |-> ev.h2 ]
Coord8(st, c) == [a \in 1..3 |-> st.lo[a] + 4 * st.h2[a] * c[a]]
AllNodes(g) == { << i, j, k >> : i \in 0..(g.n[1] - 1), j \in 0..(g.n[2] - 1), k \in 0..(g.n[3] - 1) }
QueryFails(st, ev) ==
  (IF ev.cell = CellOf(st.g, ev.q) THEN {} ELSE {"enclosing_cell"})
  \cup (IF ev.val = Value(st.g, ev.q) THEN {} ELSE {"interpolated_value"})
  \cup (IF Len(ev.grad) = 3 /\ \A a \in 1..3 : ev.grad[a] # OFF /\ ev.grad[a] * st.h2[a] = 8 * Slope(st.g, ev.q, a) THEN {} ELSE {"interpolated_gradient"})
IndexFails(st, ev) ==
  (IF \A k \in 1..Len(ev.rows) : LET r == ev.rows[k] IN r.valid = (\A a \in 1..3 : r.c[a] \in 0..(st.g.n[a] - 1)) THEN {} ELSE {"valid_node_index"})
  \cup (IF \A k \in 1..Len(ev.rows) : LET r == ev.rows[k] IN r.x = Coord8(st, r.c) THEN {} ELSE {"node_coordinates"})
  \cup (IF \A k \in 1..Len(ev.rows) : LET r == ev.rows[k] IN r.valid => r.lin + 1 = Lin(st.g, r.c) /\ r.val = Node(st.g, r.c[1], r.c[2], r.c[3]) THEN {} ELSE {"linear_index"})
  \cup (IF Len(ev.nodes) = Len(st.g.v) /\ \A c \in AllNodes(st.g) : ev.nodes[Lin(st.g, c)] = Coord8(st, c) THEN {} ELSE {"nodes_array"})
Hi(st) == [a \in 1..3 |-> st.lo[a] + 4 * st.h2[a] * (st.g.n[a] - 1)]
(* f(x) = f1 x + f2 y + f3 z + f4 + f5 x y, at the nodes; x in 1/8, result in 1/64 *)
Func64(f, x) == 8 * (f[1] * x[1] + f[2] * x[2] + f[3] * x[3]) + 64 * f[4] + f[5] * x[1] * x[2]
(* signed distance of a box: exact inside, squared outside (x, e in 1/8; d in 1/64) *)
SdfOk(d, x, r, half) ==
  LET e == [a \in 1..3 |-> Abs(x[a] - r[a]) - half[a]]
      in == \A a \in 1..3 : e[a] <= 0
      out2 == SumSeq([a \in 1..3 |-> Max2(0, e[a]) * Max2(0, e[a])])
  IN IF in THEN d = 8 * SetMax({e[1], e[2], e[3]})
     ELSE d > 0 /\ Abs(d * d - 64 * out2) <= d + 1
SdfFails(ev) ==
  LET lo == [a \in 1..3 |-> ev.r[a] - ev.half[a] - ev.bd]
      w == [a \in 1..3 |-> 2 * (ev.half[a] + ev.bd)]
      g == [n |-> ev.n, v |-> ev.v]
      x(c) == [a \in 1..3 |-> lo[a] + (w[a] * c[a]) \div (ev.n[a] - 1)]
  IN (IF ev.lo = lo /\ ev.hi = [a \in 1..3 |-> lo[a] + w[a]] THEN {} ELSE {"sdf_bounds"})
  \cup (IF ev.gn = ev.n /\ Len(ev.v) = ev.n[1] * ev.n[2] * ev.n[3] THEN (IF \A c \in AllNodes(g) : SdfOk(g.v[Lin(g, c)], x(c), ev.r, ev.half) THEN {} ELSE {"sdf_values"}) ELSE {"sdf_size"})
CurvFails(st, ev) ==
  LET g == st.g
      inner(c) == \A a \in 1..3 : c[a] >= 1 /\ c[a] <= g.n[a] - 2
  IN IF ev.n # g.n \/ Len(ev.k) # Len(g.v) \/ ev.lo # st.lo THEN {"curvature_grid"}
     ELSE (IF \A c \in AllNodes(g) : ~inner(c) \/ LET e == Curv64(g, st.h2, c) IN Near(ev.k[Lin(g, c)], e, 2 + Abs(e) \div 8) THEN {} ELSE {"mean_curvature"})
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "refuse" THEN (IF ev.out = "ok" THEN {"bad_arguments_refused"} ELSE {})
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "query" THEN QueryFails(st, ev)
     ELSE IF ev.op = "index" THEN IndexFails(st, ev)
     ELSE IF ev.op = "inside" THEN (IF ev.r = Inside(ev.x, st.lo, Hi(st), ev.bd) THEN {} ELSE {"inside_test"})
     ELSE IF ev.op = "eval" THEN (IF Len(ev.v) = Len(st.g.v) /\ \A c \in AllNodes(st.g) : ev.v[Lin(st.g, c)] = Func64(ev.f, Coord8(st, c)) THEN {} ELSE {"function_at_the_nodes"})
     ELSE IF ev.op = "sdf" THEN SdfFails(ev)
     ELSE IF ev.op = "curv" THEN CurvFails(st, ev)
     ELSE {"unknown_event"} ]
=============================================================================
