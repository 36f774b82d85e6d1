--------------------------- MODULE SceneFileTrace ---------------------------
(* The document written for a scene, read back element by element, against the document of the specification.    *)
EXTENDS SceneFile, TraceRun
RStart(ev) == [ k |-> 0 ]
Keep(st, f) == [ st |-> [k |-> st.k + 1], fails |-> f ]
WriteFails(ev) == LET W == Export(ev.scene)  D == ev.doc IN
  (IF All(W.bodies, D.bodies, BodyMatches) THEN {} ELSE {"bodies"})
  \cup (IF All(W.forces, D.forces, ForceMatches) THEN {} ELSE {"forces"})
  \cup (IF All(W.shapes, D.shapes, ShapeMatches) THEN {} ELSE {"shapes"})
  \cup (IF All(W.materials, D.materials, PairMatches) THEN {} ELSE {"materials"})
  \cup (IF All(W.hinges, D.hinges, HingeMatches) THEN {} ELSE {"hinges"})
  \cup (IF Len(W.params) = Len(D.params) /\ { W.params[k] : k \in 1..Len(W.params) } = { D.params[k] : k \in 1..Len(D.params) } THEN {} ELSE {"parameters"})
  \cup (IF \A k \in 1..Len(ev.scene.hinges) : ~ev.scene.hinges[k].given
                \/ (OffV(W.hinges[k].origin, ev.scene.hinges[k].o) /\ OffV(W.hinges[k].axis, ev.scene.hinges[k].a)) THEN {} ELSE {"hinge_as_given"})
  \cup (IF Closed(D) THEN {} ELSE {"references_resolve"})
  \cup (IF ev.untouched THEN {} ELSE {"scene_untouched"})
RStep(st, ev) ==
  CASE ev.op = "write" -> Keep(st, IF ev.out # "ok" THEN {"outcome"} ELSE IF ev.read # "ok" THEN {"well_formed"} ELSE WriteFails(ev))
    [] OTHER -> Keep(st, {"unknown_event"})
=============================================================================
