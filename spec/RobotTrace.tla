----------------------------- MODULE RobotTrace -----------------------------
(* What the engine holds after reading a robot description from a file.  Lengths are in the unit of the file.   *)
EXTENDS Robot, TraceRun
RStart(ev) == [ hold |-> [b |-> {}, h |-> {}] ]
Keep(st, f) == [ st |-> st, fails |-> f ]
(* the triangles as they lie in the world, with their orientation; vertices may be stored in another order *)
Cyc(a, b, d) == { << a, b, d >>, << b, d, a >>, << d, a, b >> }
CornersOf(A, T) == { Cyc(A[T[k][1] + 1], A[T[k][2] + 1], A[T[k][3] + 1]) : k \in 1..Len(T) }
BodyFails(R, b) == LET X == BodyIn(R, b.name)  l == LinkOf(R, b.name) IN
  (IF b.r = X.r THEN {} ELSE {"place_of_body"})
  \cup (IF b.m = X.m THEN {} ELSE {"orientation_of_body"})
  \cup (IF /\ Len(b.T) = Len(l.T) /\ Len(b.V) = Len(l.V) /\ \A i \in 1..Len(b.V) : OnLattice(b.V[i])
           /\ CornersOf([i \in 1..Len(b.V) |-> VAdd(MApp(b.m, b.V[i]), b.r)], b.T) = CornersOf(PointsIn(R, b.name), l.T) THEN {} ELSE {"surface_of_body"})
  \cup (IF b.mass = l.mass /\ b.inertia = l.inertia THEN {} ELSE {"mass_and_inertia"})
  \cup (IF b.free /\ b.rest THEN {} ELSE {"free_and_at_rest"})
HingeFails(R, k, h) == LET j == R.joints[k]  P == BodyIn(R, j.parent)  C == BodyIn(R, j.child) IN
  IF ~(h.parent = j.parent /\ h.child = j.child) THEN {"links_of_joint"} ELSE
  (IF OnLattice(h.arm_p) /\ OnLattice(h.arm_c) /\ FAt(P, h.arm_p) = HingeAt(R, k) /\ FAt(C, h.arm_c) = HingeAt(R, k) THEN {} ELSE {"place_of_joint"})
  \cup (IF OnLattice(h.axis_p) /\ OnLattice(h.axis_c) /\ MApp(P.m, h.axis_p) = HingeAlong(R, k) /\ MApp(C.m, h.axis_c) = HingeAlong(R, k) THEN {} ELSE {"axis_of_joint"})
ReadFails(st, ev) == LET R == ev.robot IN
  (IF { ev.bodies[i].name : i \in 1..Len(ev.bodies) } = Solids(R) /\ Len(ev.bodies) = Cardinality(Solids(R)) THEN {} ELSE {"a_body_for_every_link"})
  \cup (IF { ev.hinges[i].name : i \in 1..Len(ev.hinges) } = { R.joints[k].name : k \in Moving(R) } /\ Len(ev.hinges) = Cardinality(Moving(R)) THEN {} ELSE {"a_hinge_for_every_joint"})
  \cup UNION { IF ev.bodies[i].name \in Solids(R) THEN BodyFails(R, ev.bodies[i]) ELSE {} : i \in 1..Len(ev.bodies) }
  \cup UNION { UNION { IF R.joints[k].name = ev.hinges[i].name THEN HingeFails(R, k, ev.hinges[i]) ELSE {} : k \in Moving(R) } : i \in 1..Len(ev.hinges) }
  \cup (IF ev.others THEN {} ELSE {"other_bodies_untouched"})
RStep(st, ev) ==
  CASE ev.op = "read" -> Keep(st, IF ev.out = "ok" THEN ReadFails(st, ev) ELSE {"outcome"})
    [] ev.op = "again" -> Keep(st, (IF ev.out = "RuntimeError" THEN {} ELSE {"names_taken_refused"}) \cup (IF ev.others THEN {} ELSE {"other_bodies_untouched"}))
    [] ev.op = "parse" -> Keep(st, IF ev.out = "ok" /\ ev.name = ev.robot.name
                                      /\ ev.links = [k \in 1..Len(ev.robot.links) |-> ev.robot.links[k].name]
                                      /\ ev.joints = [k \in 1..Len(ev.robot.joints) |-> << ev.robot.joints[k].name, ev.robot.joints[k].type, ev.robot.joints[k].parent, ev.robot.joints[k].child >>]
                                   THEN {} ELSE {"parsed_description"})
    [] OTHER -> Keep(st, {"unknown_event"})
=============================================================================
