----------------------------- MODULE SceneFileMC ----------------------------
(* Scenes are built step by step; after each step the document leads back to the scene.                          *)
EXTENDS SceneFile
CONSTANTS Bodies, Cap
Turns == { MId, RotZ, MMul(RotX, RotZ) }
Points == { << 0, 0, 0 >>, << 1, -2, 3 >> }
VARIABLES S, next
vars == << S, next >>
Shape0 == [name |-> "s", V |-> << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>, T |-> << << 0, 2, 1 >>, << 0, 1, 3 >>, << 0, 3, 2 >>, << 1, 2, 3 >> >>]
Init == /\ S = [bodies |-> << >>, forces |-> << [name |-> "g", type |-> "gravity", nums |-> << 9, 0, 1, 0 >>] >>, shapes |-> << Shape0 >>,
                materials |-> << [pair |-> << "default", "default" >>, mu |-> << 1, 1, 1 >>, eps |-> 0] >>, hinges |-> << >>, params |-> << >>]
        /\ next = 0
Place(x, m, r) == [name |-> x, idx |-> next, shape |-> "s", pos |-> r, rot |-> << 1, 0, 0, 0 >>, vel |-> VZero, spin |-> VZero, mass |-> 1, inertia |-> << 1, 1, 1 >>,
                   fixed |-> FALSE, material |-> "default", forces |-> << >>, m |-> m, r |-> r]
AddBody == \E x \in Bodies, m \in Turns, r \in Points : /\ ~HasName(S.bodies, x)
             /\ S' = [S EXCEPT !.bodies = Append(@, Place(x, m, r))] /\ next' = next + 1
Apply == \E k \in 1..Len(S.bodies) : /\ S.bodies[k].forces = << >> /\ S' = [S EXCEPT !.bodies[k].forces = Append(@, "g")] /\ UNCHANGED next
(* a hinge given in the world is kept in the frames of its bodies *)
AddHinge == \E p, c \in 1..Len(S.bodies), o \in Points, a \in { << 0, 0, 1 >>, << 0, -1, 0 >> } :
              /\ p # c /\ Len(S.hinges) < Cap
              /\ LET P == S.bodies[p] IN
                 S' = [S EXCEPT !.hinges = Append(@, [name |-> "h" \o ToString(Len(S.hinges)), parent |-> P.name, child |-> S.bodies[c].name,
                                                      arm |-> MApp(MTr(P.m), VSub(o, P.r)), axis |-> MApp(MTr(P.m), a), o |-> o, a |-> a])]
              /\ UNCHANGED next
Next == AddBody \/ Apply \/ AddHinge
Spec == Init /\ [][Next]_vars
D == Export(S)
Resolves == Closed(D)
Back == LET I == Import(D) IN
  /\ NamesIn(I.bodies) = NamesIn(S.bodies) /\ \A k \in 1..Len(S.bodies) : I.bodies[k].pos = S.bodies[k].pos /\ I.bodies[k].forces = S.bodies[k].forces
  /\ I.shapes = S.shapes /\ I.forces = S.forces /\ I.materials = S.materials
  /\ \A k \in 1..Len(S.hinges) : I.hinges[k].origin = S.hinges[k].o /\ I.hinges[k].axis = S.hinges[k].a
Agrees == All(D.bodies, D.bodies, BodyMatches) /\ All(D.hinges, D.hinges, HingeMatches) /\ All(D.shapes, D.shapes, ShapeMatches)
(* the comparison tells scenes apart *)
Apart == Len(S.bodies) = 0 \/ ~BodyMatches(D.bodies[1], [D.bodies[1] EXCEPT !.pos[2] = @ + Tol + 1])
=============================================================================
