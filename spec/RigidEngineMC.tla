--------------------------- MODULE RigidEngineMC ---------------------------
(* The state machine over RigidEngine!Apply, with finite pools of names and values. *)
EXTENDS RigidEngine, Json
-----------------------------------------------------------------------------
(* ---- the state machine over small pools ---- *)
CONSTANTS Bodies, Shapes, Forces, Hinges, Mats, Pos, Rots, Kinds, MaxLen
VARIABLES eng, last, hist
vars == << eng, last, hist >>

ShapeDesc == [S |-> RotX, com |-> << 1, 0, 0 >>, mass |-> 6, inertia |-> << 30, 60, 78 >>]

AllOps ==
     { [op |-> "create_body", n |-> n] : n \in Bodies }
  \cup { [op |-> "create_hinge", n |-> n] : n \in Hinges }
  \cup { [op |-> "create_shape", n |-> n, S |-> ShapeDesc.S, com |-> ShapeDesc.com, mass |-> ShapeDesc.mass, inertia |-> ShapeDesc.inertia] : n \in Shapes }
  \cup { [op |-> "connect_shape", b |-> b, s |-> s] : b \in Bodies, s \in Shapes }
  \cup { [op |-> "create_gravity", n |-> n, g |-> g, up |-> << 0, 2, 0 >>] : n \in Forces, g \in {0, 4} }
  \cup { [op |-> "create_damping", n |-> n, alpha |-> 1, beta |-> g] : n \in Forces, g \in {0, 2} }
  \cup { [op |-> "connect_force", b |-> b, f |-> f] : b \in Bodies, f \in Forces }
  \cup { [op |-> "set_position", b |-> b, r |-> r, mf |-> m] : b \in Bodies, r \in Pos, m \in BOOLEAN }
  \cup { [op |-> "set_orientation", b |-> b, R |-> R, mf |-> m] : b \in Bodies, R \in Rots, m \in BOOLEAN }
  \cup { [op |-> "set_velocity", b |-> b, v |-> r] : b \in Bodies, r \in Pos }
  \cup { [op |-> "set_spin", b |-> b, v |-> r] : b \in Bodies, r \in Pos }
  \cup { [op |-> "set_mass", b |-> b, rho |-> 2] : b \in Bodies }
  \cup { [op |-> "set_type", b |-> b, t |-> t] : b \in Bodies, t \in {"fixed", "FREE", "static"} }
  \cup { [op |-> "set_material", b |-> b, m |-> m] : b \in Bodies, m \in Mats }
  \cup { [op |-> "create_inter", a |-> a, b |-> b, eps |-> e, mu |-> << 2, 2, 2 >>] : a \in Mats, b \in Mats, e \in {-1, 1} }
  \cup { [op |-> "set_hinge", h |-> h, parent |-> p, child |-> c, origin |-> << 1, 2, 0 >>, axis |-> << 0, 0, -2 >>, mode |-> m] :
            h \in Hinges, p \in Bodies, c \in Bodies, m \in {"world", "body", "model", "local"} }

Ops == { o \in AllOps : o.op \in Kinds }

Init == eng = EmptyEngine /\ last = [o |-> [op |-> "none"], ok |-> TRUE] /\ hist = << >>
(* The history of calls is kept only when behaviours are generated (MaxLen > 0). *)
Next == \E o \in Ops : LET a == Apply(eng, o) IN
          /\ eng' = a.st
          /\ last' = [o |-> o, ok |-> a.ok]
          /\ hist' = IF MaxLen = 0 THEN hist ELSE Append(hist, o)
Spec == Init /\ [][Next]_vars

View == << eng >>
Unique(s) == Cardinality(Names(s)) = Len(s)
TypeOK == /\ Unique(eng.bodies) /\ Unique(eng.shapes) /\ Unique(eng.forces) /\ Unique(eng.hinges)
          /\ \A i, j \in 1..Len(eng.inter) : i # j => ~Pair(eng.inter[i].a, eng.inter[i].b, eng.inter[j])
RefsResolve ==
  /\ \A i \in 1..Len(eng.bodies) : LET b == eng.bodies[i] IN
       /\ b.shape = NoShape \/ Has(eng.shapes, b.shape)
       /\ \A f \in Range(b.forces) : Has(eng.forces, f)
       /\ Cardinality(Range(b.forces)) = Len(b.forces)
       /\ HasMaterial(eng, b.mat)
       /\ IsRot(b.R)
  /\ \A i \in 1..Len(eng.hinges) : LET h == eng.hinges[i] IN
       h.parent # "" => Has(eng.bodies, h.parent) /\ Has(eng.bodies, h.child)
(* action properties, stated on the remembered last call *)
NoEffectWhenRejected == [][ \A o \in {last'} : ~o.ok => eng' = eng ]_vars
OnlyTheNamedBodyChanges ==
  [][ LET o == last'.o IN \A i \in 1..Len(eng.bodies) :
        (eng.bodies[i].name \notin {o[k] : k \in DOMAIN o \cap {"b"}}) => eng'.bodies[i] = eng.bodies[i] ]_vars
NumberingIsStable == [][ /\ \A i \in 1..Len(eng.bodies) : eng'.bodies[i].name = eng.bodies[i].name
                         /\ \A i \in 1..Len(eng.hinges) : eng'.hinges[i].name = eng.hinges[i].name ]_vars
(* placing by the model frame does what it says: the model frame ends where asked, the rest of its pose unchanged *)
ModelFrameLaw ==
  [][ LET o == last'.o IN
      (last'.ok /\ o.op \in {"set_position", "set_orientation"} /\ o.mf) =>
        LET b0 == Get(eng.bodies, o.b)  b1 == Get(eng'.bodies, o.b)  s == Get(eng.shapes, b0.shape) IN
        IF o.op = "set_position" THEN ModelPos(b1, s) = o.r /\ ModelRot(b1, s) = ModelRot(b0, s)
        ELSE ModelRot(b1, s) = o.R /\ ModelPos(b1, s) = ModelPos(b0, s) ]_vars
(* the two sockets of a hinge coincide in the world when the hinge is set *)
HingeLaw ==
  [][ LET o == last'.o IN
      (last'.ok /\ o.op = "set_hinge") =>
        LET h == Get(eng'.hinges, o.h)  p == Get(eng.bodies, o.parent)  c == Get(eng.bodies, o.child) IN
        /\ VAdd(MApp(p.R, h.arm_p), p.r) = VAdd(MApp(c.R, h.arm_c), c.r)
        /\ MApp(p.R, h.axis_p) = MApp(c.R, h.axis_c) ]_vars
Emit == IF Len(hist) = MaxLen THEN PrintT("SCRIPT " \o ToJson(hist)) ELSE TRUE
Bounded == Len(hist) <= MaxLen

MCPos == { << 0, 0, 0 >>, << 1, 2, 3 >> }
MCPos1 == { << 1, 2, 3 >> }
MCRots1 == { RotZ }
KRegistryQ == {"create_body", "create_hinge", "create_shape", "connect_shape", "create_gravity", "connect_force", "set_type", "set_material", "create_inter"}
MCRots == { MId, RotZ }
MCRots4 == { MId, RotX, RotY, RotZ, MMul(RotX, RotY) }
MCPos2 == { << 0, 0, 0 >>, << 2, 4, -6 >>, << -1, 0, 3 >> }
KRegistry == {"create_body", "create_hinge", "create_shape", "connect_shape", "create_gravity", "create_damping",
              "connect_force", "set_type", "set_material", "create_inter", "set_mass", "set_hinge"}
KPlace == {"create_body", "create_shape", "connect_shape", "set_position", "set_orientation", "create_hinge", "set_hinge"}
KAll == KRegistry \cup KPlace \cup {"set_velocity", "set_spin"}
SmallPos == \A i \in 1..Len(eng.bodies) : \A k \in 1..3 : Abs(eng.bodies[i].r[k]) <= 3
=============================================================================
