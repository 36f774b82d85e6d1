--------------------------- MODULE RecordingTrace ---------------------------
(* The file written by the recorder, read back with the USD library, against the recorded scene.        *)
(* Times are in quarters of a frame; points and places in 1/1024.                                       *)
EXTENDS Recording, TraceRun
RStart(ev) == [ S |-> EmptyScene, span |-> 0, fps |-> 24 ]
Keep(st, f) == [ st |-> st, fails |-> f ]
OkElse(ev) == IF ev.out = "ok" THEN {} ELSE {"outcome"}
NearTimes(v, gap, w, tol) == \A i \in 1..3 : v[i] # OFF /\ Abs(v[i] * gap - w[i]) <= tol * gap
(* one prim of the file, seen at the times ev.ts *)
PrimFails(S, x, p, clk) ==
  (IF p.T = S[x].T THEN {} ELSE {"faces"})
  \cup (IF S[x].kind = "rigid"
        THEN (IF p.V = S[x].V THEN {} ELSE {"vertices"})
             \cup (IF \A k \in 1..Len(clk) : NearTimes(p.at[k].r, GapOr1(S, x, clk[k]), PlaceAt(S, x, clk[k]), 1) THEN {} ELSE {"positions"})
             \cup (IF \A k \in 1..Len(clk) : TurnKnown(S, x, clk[k]) => p.at[k].m = TurnAt(S, x, clk[k]) THEN {} ELSE {"orientations"})
        ELSE (IF \A k \in 1..Len(clk) : LET g == GapOr1(S, x, clk[k])  w == PointsAt(S, x, clk[k]) IN
                    Len(p.at[k].V) = Len(S[x].V) /\ \A i \in 1..Len(S[x].V) : NearTimes(p.at[k].V[i], g, w[i], 1) THEN {} ELSE {"mesh_points"}))
FileFails(st, ev) ==
  (IF { ev.prims[k].name : k \in 1..Len(ev.prims) } = DOMAIN st.S /\ Len(ev.prims) = Cardinality(DOMAIN st.S) THEN {} ELSE {"objects_in_file"})
  \cup UNION { IF Knows(st.S, ev.prims[k].name) THEN PrimFails(st.S, ev.prims[k].name, ev.prims[k], ev.ts) ELSE {} : k \in 1..Len(ev.prims) }
  \cup (IF ev.start = 0 /\ ev.end = st.span /\ ev.fps = st.fps THEN {} ELSE {"times_of_file"})
RStep(st, ev) == LET S == st.S IN
  CASE ev.op = "rigid" -> IF Knows(S, ev.name) THEN Keep(st, IF ev.out = "ValueError" THEN {} ELSE {"name_taken_refused"})
                          ELSE [ st |-> [st EXCEPT !.S = Put(S, ev.name, NewRigid(ev.V, ev.T))], fails |-> OkElse(ev) ]
    [] ev.op = "mesh" -> [ st |-> [st EXCEPT !.S = Put(S, ev.name, NewMesh(ev.V, ev.T))], fails |-> OkElse(ev) ]
    [] ev.op = "move" -> IF Is(S, ev.name, "rigid") /\ ev.good THEN [ st |-> [st EXCEPT !.S = Record(S, ev.name, ev.t, [r |-> ev.r, m |-> ev.m])], fails |-> OkElse(ev) ]
                         ELSE Keep(st, IF ev.out = (IF Is(S, ev.name, "mesh") THEN "TypeError" ELSE "ValueError") THEN {} ELSE {"bad_update_refused"})
    [] ev.op = "bend" -> IF Is(S, ev.name, "mesh") THEN [ st |-> [st EXCEPT !.S = Record(S, ev.name, ev.t, ev.V)], fails |-> OkElse(ev) ]
                         ELSE Keep(st, IF ev.out = "ok" THEN {"unknown_mesh_refused"} ELSE {})
    [] ev.op = "look" -> IF Is(S, ev.name, "mesh") THEN Keep(st, IF ev.out = "ok" /\ Len(ev.V) = Len(S[ev.name].V)
                                  /\ \A i \in 1..Len(ev.V) : NearTimes(ev.V[i], GapOr1(S, ev.name, ev.t), PointsAt(S, ev.name, ev.t)[i], 1) THEN {} ELSE {"mesh_points"})
                         ELSE Keep(st, IF ev.out = "ok" THEN {"unknown_mesh_refused"} ELSE {})
    [] ev.op = "span" -> [ st |-> [st EXCEPT !.span = ev.d], fails |-> OkElse(ev) ]
    [] ev.op = "fps" -> [ st |-> [st EXCEPT !.fps = ev.d], fails |-> OkElse(ev) ]
    [] ev.op = "save" -> Keep(st, IF ev.out = "ok" THEN FileFails(st, ev) ELSE {"outcome"})
    [] OTHER -> Keep(st, {"unknown_event"})
=============================================================================
