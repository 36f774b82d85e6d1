------------------------------ MODULE SceneFile -----------------------------
(* A scene (what the rigid body engine holds) and the document that describes it.  Both are sequences of         *)
(* records; numbers are fixed point.  Names identify things, except that hinges also cite bodies by number.       *)
EXTENDS Lib
CONSTANT Tol                                                  \* how far a written number may be off
VAt(X, p) == VAdd(MApp(X.m, p), X.r)
Named(s, x) == CHOOSE k \in 1..Len(s) : s[k].name = x
HasName(s, x) == \E k \in 1..Len(s) : s[k].name = x
NamesIn(s) == [k \in 1..Len(s) |-> s[k].name]
(* the document of a scene *)
BodyElement(S, k) == LET b == S.bodies[k] IN [name |-> b.name, idx |-> b.idx, shape |-> b.shape, pos |-> b.pos, rot |-> b.rot, vel |-> b.vel, spin |-> b.spin, mass |-> b.mass,
                                              inertia |-> b.inertia, fixed |-> b.fixed, material |-> b.material, apply |-> b.forces]
HingeElement(S, k) == LET h == S.hinges[k]  p == S.bodies[Named(S.bodies, h.parent)]  c == S.bodies[Named(S.bodies, h.child)]
                          X == [m |-> p.m, r |-> p.r] IN
  [name |-> h.name, idx |-> k - 1, parent |-> h.parent, pidx |-> p.idx, child |-> h.child, cidx |-> c.idx, origin |-> VAt(X, h.arm), axis |-> MApp(p.m, h.axis), mode |-> "world"]
ShapeElement(S, k) == LET s == S.shapes[k] IN [name |-> s.name, vcount |-> Len(s.V), V |-> s.V, vidx |-> [i \in 1..Len(s.V) |-> i - 1],
                                               tcount |-> Len(s.T), T |-> s.T, tidx |-> [i \in 1..Len(s.T) |-> i - 1]]
Export(S) == [bodies |-> [k \in 1..Len(S.bodies) |-> BodyElement(S, k)], forces |-> S.forces, shapes |-> [k \in 1..Len(S.shapes) |-> ShapeElement(S, k)],
              materials |-> S.materials, hinges |-> [k \in 1..Len(S.hinges) |-> HingeElement(S, k)], params |-> S.params]
(* the scene of a document *)
Import(D) == [bodies |-> [k \in 1..Len(D.bodies) |-> LET b == D.bodies[k] IN [name |-> b.name, shape |-> b.shape, pos |-> b.pos, forces |-> b.apply]],
              shapes |-> [k \in 1..Len(D.shapes) |-> [name |-> D.shapes[k].name, V |-> D.shapes[k].V, T |-> D.shapes[k].T]],
              hinges |-> [k \in 1..Len(D.hinges) |-> [name |-> D.hinges[k].name, parent |-> D.hinges[k].parent, child |-> D.hinges[k].child, origin |-> D.hinges[k].origin, axis |-> D.hinges[k].axis]],
              forces |-> D.forces, materials |-> D.materials, params |-> D.params]
(* every reference of a document leads somewhere in the document *)
Closed(D) == /\ \A k \in 1..Len(D.bodies) : HasName(D.shapes, D.bodies[k].shape) /\ \A i \in 1..Len(D.bodies[k].apply) : HasName(D.forces, D.bodies[k].apply[i])
             /\ \A k \in 1..Len(D.hinges) : /\ HasName(D.bodies, D.hinges[k].parent) /\ HasName(D.bodies, D.hinges[k].child)
                                            /\ D.bodies[Named(D.bodies, D.hinges[k].parent)].idx = D.hinges[k].pidx
                                            /\ D.bodies[Named(D.bodies, D.hinges[k].child)].idx = D.hinges[k].cidx
             /\ \A k \in 1..Len(D.shapes) : /\ D.shapes[k].vcount = Len(D.shapes[k].V) /\ D.shapes[k].tcount = Len(D.shapes[k].T)
                                            /\ \A i \in 1..Len(D.shapes[k].T) : \A j \in 1..3 : D.shapes[k].T[i][j] \in 0..(Len(D.shapes[k].V) - 1)
(* numbers and sequences of numbers that agree up to the digits that are written *)
Off(a, b) == Abs(a - b) <= Tol
OffV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Off(a[i], b[i])
OffM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : OffV(a[i], b[i])
BodyMatches(w, d) == /\ w.name = d.name /\ w.idx = d.idx /\ w.shape = d.shape /\ w.fixed = d.fixed /\ w.material = d.material /\ w.apply = d.apply
                     /\ OffV(w.pos, d.pos) /\ OffV(w.rot, d.rot) /\ OffV(w.vel, d.vel) /\ OffV(w.spin, d.spin) /\ Off(w.mass, d.mass) /\ OffV(w.inertia, d.inertia)
ForceMatches(w, d) == w.name = d.name /\ w.type = d.type /\ OffV(w.nums, d.nums)
ShapeMatches(w, d) == w.name = d.name /\ w.vcount = d.vcount /\ w.tcount = d.tcount /\ w.vidx = d.vidx /\ w.tidx = d.tidx /\ w.T = d.T /\ OffM(w.V, d.V)
PairMatches(w, d) == Len(d.pair) = 2 /\ { w.pair[1], w.pair[2] } = { d.pair[1], d.pair[2] } /\ OffV(w.mu, d.mu) /\ Off(w.eps, d.eps)
HingeMatches(w, d) == /\ w.name = d.name /\ w.idx = d.idx /\ w.parent = d.parent /\ w.child = d.child /\ w.pidx = d.pidx /\ w.cidx = d.cidx /\ w.mode = d.mode
                      /\ OffV(w.origin, d.origin) /\ OffV(w.axis, d.axis)
All(w, d, P(_, _)) == Len(w) = Len(d) /\ \A k \in 1..Len(w) : P(w[k], d[k])
SameParam(w, d) == w = d
=============================================================================
