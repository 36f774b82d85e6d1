----------------------------- MODULE MassTrace ------------------------------
EXTENDS Mass, TraceRun
RStart(ev) == [ k |-> 0 ]
V1(ev) == [ k \in 1..Len(ev.V) |-> ev.V[k] ]
(* density = rho / 2 *)
PropFails(ev, vol, m, I) ==
  (IF ev.mass = ev.rho * vol THEN {} ELSE {"mass"})
  \cup (IF \A i \in 1..3 : Abs(ev.com[i] * 4 * vol - 1024 * m[i]) <= 4 * vol THEN {} ELSE {"centre_of_mass"})
  \cup (IF \A e \in 1..6 : Abs(ev.I[e] - ev.rho * I[e]) <= 1 THEN {} ELSE {"inertia_tensor"})
  \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
BodyFails(ev, vol, m, C) ==
  LET big == Max2(C[1], Max2(C[2], C[3]))  tol == 4 + ev.rho * 2 + (ev.rho * big) \div 20000 IN
  (IF Abs(ev.m2 - ev.rho * vol) <= 1 THEN {} ELSE {"body_mass"})
  \cup (IF \A i \in 1..3 : Abs(ev.r[i] * 4 * vol - 1024 * m[i]) <= 4 * vol THEN {} ELSE {"body_origin"})
  \cup (IF ev.ortho /\ ev.Ib[1] >= ev.Ib[2] /\ ev.Ib[2] >= ev.Ib[3] /\ ev.Ib[3] >= 0 THEN {} ELSE {"principal_axes"})
  \cup (IF \A e \in 1..6 : Abs(ev.W[e] - ev.rho * C[e]) <= tol THEN {} ELSE {"body_frame_inertia"})
  \cup (IF \A e \in 1..6 : Abs(ev.W2[e] - ev.rho * C[e]) <= tol THEN {} ELSE {"world_inertia"})
MassFails(ev) ==
  LET V == V1(ev)  vol == V6(V, ev.T) IN
  IF vol <= 0 THEN (IF ev.out # "ok" THEN {} ELSE {"inside_out_refused"})
  ELSE IF ev.out # "ok" THEN {"outcome"}
  ELSE LET m == M24(V, ev.T) IN
       PropFails(ev, vol, m, Inertia(S120(V, ev.T))) \cup BodyFails(ev, vol, m, Inertia(Central(V, ev.T)))
(* the shape of a mesh: the body frame puts the mesh back where it was modelled *)
Turns(t) == { t, << t[2], t[3], t[1] >>, << t[3], t[1], t[2] >> }
Soup(V, T) == { UNION { { << V[u[1]], V[u[2]], V[u[3]] >> } : u \in Turns(T[k]) } : k \in 1..Len(T) }
ShapeFails(ev) ==
  LET V == V1(ev)  vol == V6(V, ev.T)  C == Inertia(Central(V, ev.T)) IN
  IF ev.out # "ok" THEN {"outcome"}
  ELSE (IF Abs(ev.m2 - 2 * vol) <= 1 THEN {} ELSE {"body_mass"})
       \cup (IF \A k \in 1..Len(ev.back) : NearV(ev.back[k], VScale(256, ev.model[k]), 2) THEN {} ELSE {"model_frame"})
       \cup (IF Len(ev.model) = Len(ev.V) /\ Len(ev.back) = Len(ev.V) /\ Soup(ev.model, ev.Tm) = Soup(V, ev.T) THEN {} ELSE {"mesh_surface"})
       \cup (IF ev.moved = ev.transform THEN {} ELSE {"body_frame_geometry"})
       \cup (IF \A e \in 1..6 : Abs(ev.W2[e] - 2 * C[e]) <= 8 + Max2(C[1], C[2]) \div 10000 THEN {} ELSE {"body_frame_inertia"})
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "mass" THEN MassFails(ev)
     ELSE IF ev.op = "shape" THEN ShapeFails(ev)
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "congruent" THEN (IF ev.W = Congruent(ev.R, ev.B) THEN {} ELSE {"rotated_inertia"}) \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
     ELSE {"unknown_event"} ]
=============================================================================
