-------------------------- MODULE RigidEngineTrace --------------------------
(* Recorded calls on a real engine against RigidEngine!Apply.  Each event carries the call, whether  *)
(* it was accepted, and the projection of the whole engine after it.                                  *)
EXTENDS RigidEngine, TraceRun

RStart(ev) == EmptyEngine

(* what a box-shaped mesh (model frame: size d, centre c, all even) must be turned into *)
BoxMass(d) == d[1] * d[2] * d[3]
Box12I(d) == << BoxMass(d) * (d[2]*d[2] + d[3]*d[3]), BoxMass(d) * (d[1]*d[1] + d[3]*d[3]), BoxMass(d) * (d[1]*d[1] + d[2]*d[2]) >>
InBody(S, I) == [i \in 1..3 |-> S[i]*S[i]*I[1] + S[3+i]*S[3+i]*I[2] + S[6+i]*S[6+i]*I[3]]   \* diag(S^T I S)

ShapeFails(ev) ==
  LET sh == ev.shape IN
     (IF IsRot(sh.S) THEN {} ELSE {"shape_frame_is_a_rotation"})
  \cup (IF sh.com = ev.c THEN {} ELSE {"shape_centre_of_mass"})
  \cup (IF sh.mass = BoxMass(ev.d) THEN {} ELSE {"shape_mass"})
  \cup (IF IsRot(sh.S) /\ sh.inertia = InBody(sh.S, Box12I(ev.d)) THEN {} ELSE {"shape_inertia"})
  \cup (IF ~ev.tf THEN (IF Range(ev.vb) = Range(ev.vm) THEN {} ELSE {"mesh_left_in_model_frame"})
        ELSE IF IsRot(sh.S) /\ OnLattice(sh.com) /\ (\A v \in Range(ev.vb) : OnLattice(v))
                /\ { VAdd(MApp(sh.S, v), sh.com) : v \in Range(ev.vb) } = Range(ev.vm) THEN {}
        ELSE {"mesh_moved_to_body_frame"})

Body(x) == [ name |-> x.name, shape |-> x.shape, forces |-> x.forces, mat |-> x.mat, fixed |-> x.fixed, mass |-> x.mass,
             inertia |-> x.inertia, r |-> x.r, R |-> x.R, v |-> x.v, w |-> x.w ]
Hinge(x) == [ name |-> x.name, parent |-> x.parent, child |-> x.child, arm_p |-> x.arm_p, arm_c |-> x.arm_c, axis_p |-> x.axis_p, axis_c |-> x.axis_c ]
Seqs(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Norm(x) == [ m |-> {x.a, x.b}, eps |-> x.eps, mu |-> x.mu ]

StateFails(st, e) ==
     (IF Seqs(e.bodies, Body) = st.bodies THEN {} ELSE {"bodies"})
  \cup (IF \A i \in 1..Len(e.bodies) : e.bodies[i].idx = i - 1 THEN {} ELSE {"body_numbering"})
  \cup (IF \A i \in 1..Len(e.bodies) : (e.bodies[i].bvh = (e.bodies[i].shape # NoShape)) THEN {} ELSE {"body_has_bounding_volumes"})
  \cup (IF Seqs(e.hinges, Hinge) = st.hinges THEN {} ELSE {"hinges"})
  \cup (IF \A i \in 1..Len(e.hinges) : e.hinges[i].idx = i - 1 THEN {} ELSE {"hinge_numbering"})
  \cup (IF Range(e.shapes) = { [name |-> s.name, mass |-> s.mass, inertia |-> s.inertia, com |-> s.com, R |-> s.R] : s \in Range(st.shapes) }
         /\ Len(e.shapes) = Len(st.shapes) THEN {} ELSE {"shapes"})
  \cup (IF Range(e.forces) = Range(st.forces) /\ Len(e.forces) = Len(st.forces) THEN {} ELSE {"forces"})
  \cup (IF { Norm(x) : x \in Range(e.inter) } = { Norm(x) : x \in Range(st.inter) } /\ Len(e.inter) = Len(st.inter)
        THEN {} ELSE {"interactions"})
  \cup (IF e.shared THEN {} ELSE {"shapes_are_shared"})

RStep(st, ev) ==
  IF ev.op \in Queries THEN
    LET a == Query(st, ev) IN
    [ st |-> st,
      fails |-> (IF (ev.out = "ok") = a.ok THEN {} ELSE {"query_outcome"})
           \cup (IF a.ok /\ ev.out = "ok" /\ ev.val # a.val THEN {"query_value"} ELSE {})
           \cup StateFails(st, ev.eng) ]
  ELSE
    LET o == IF ev.op = "create_shape" THEN [op |-> "create_shape", n |-> ev.n, S |-> ev.shape.S, com |-> ev.shape.com, mass |-> ev.shape.mass,
                                             inertia |-> ev.shape.inertia] ELSE ev
        a == Apply(st, o) IN
    [ st |-> a.st,
      fails |-> (IF (ev.out = "ok") = a.ok THEN {} ELSE {IF a.ok THEN "rejected_a_valid_call" ELSE "accepted_an_invalid_call"})
           \cup (IF ev.op = "create_shape" /\ a.ok /\ ev.out = "ok" THEN ShapeFails(ev) ELSE {})
           \cup StateFails(a.st, ev.eng) ]
=============================================================================
