---------------------------- MODULE SoftEngineMC ----------------------------
EXTENDS SoftEngine, Json
CONSTANTS Bodies, Mats, Kinds, MaxLen
VARIABLES eng, last, hist
vars == << eng, last, hist >>
TetV == << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>
TetT == << << 0, 1, 2, 3 >> >>
TetS == << << 1, 2, 3 >>, << 0, 3, 2 >>, << 3, 0, 1 >>, << 1, 0, 2 >> >>
AllOps ==
     { [op |-> "create_body", n |-> n, V |-> TetV, T |-> t, S |-> TetS, mesh |-> IF t = TetT THEN 0 ELSE 9] : n \in Bodies, t \in { TetT, << << 1, 0, 2, 3 >> >> } }
  \cup { [op |-> "dirichlet", b |-> b, ax |-> 1, s |-> 1, lim |-> 0] : b \in Bodies }
  \cup { [op |-> "traction", b |-> b, ax |-> 2, s |-> 1, lim |-> 0, load |-> << 0, 3, 0 >>, arr |-> r] : b \in Bodies, r \in BOOLEAN }
  \cup { [op |-> "set_velocity", b |-> b, v |-> v] : b \in Bodies, v \in { << 1, 2, 3 >>, << 1, 2 >> } }
  \cup { [op |-> "set_spatial", b |-> b, x |-> x] : b \in Bodies, x \in { [i \in 1..4 |-> VAdd(TetV[i], << 5, 0, i >>)], << << 0, 0, 0 >> >> } }
  \cup { [op |-> "set_type", b |-> b, t |-> t] : b \in Bodies, t \in {"fixed", "FREE", "static"} }
  \cup { [op |-> "set_gravity", b |-> b, g |-> g] : b \in Bodies, g \in { << 0, 0, -10 >>, << 1 >> } }
  \cup { [op |-> "set_material", b |-> b, m |-> m] : b \in Bodies, m \in Mats }
  \cup { [op |-> "create_material", m |-> m] : m \in Mats }
  \cup { [op |-> "set_elasticity", m |-> m, E |-> e, nu |-> nu] : m \in Mats, e \in {0, 50}, nu \in {-1, 2, 6} }
  \cup { [op |-> "set_viscosity", m |-> m, c |-> c] : m \in Mats, c \in {-1, 3} }
  \cup { [op |-> "set_density", m |-> m, rho |-> c] : m \in Mats, c \in {-1, 7} }
  \cup { [op |-> "set_model", m |-> m, model |-> c] : m \in Mats, c \in {"SVK", "bad"} }
  \cup { [op |-> "create_inter", a |-> a, b |-> b, mu |-> c] : a \in Mats, b \in Mats, c \in {-1, 2} }
Ops == { o \in AllOps : o.op \in Kinds }
Init == eng = EmptyEngine /\ last = [o |-> [op |-> "none"], ok |-> TRUE] /\ hist = << >>
Next == \E o \in Ops : LET a == Apply(eng, o) IN
          /\ eng' = a.st /\ last' = [o |-> o, ok |-> a.ok]
          /\ hist' = IF MaxLen = 0 THEN hist ELSE Append(hist, o)
Spec == Init /\ [][Next]_vars
View == << eng >>
Once == \A i \in 1..Len(eng.bodies) : Len(eng.bodies[i].dir) <= 4 /\ Len(eng.bodies[i].trac) <= 1
Unique(s) == Cardinality(Names(s)) = Len(s)
TypeOK == Unique(eng.bodies) /\ Unique(eng.mats) /\ \A i, j \in 1..Len(eng.inter) : i # j => ~Pair(eng.inter[i].a, eng.inter[i].b, eng.inter[j])
RefsResolve == /\ \A i \in 1..Len(eng.bodies) : Has(eng.mats, eng.bodies[i].mat)
               /\ \A i \in 1..Len(eng.inter) : Has(eng.mats, eng.inter[i].a) /\ Has(eng.mats, eng.inter[i].b)
               /\ \A i \in 1..Len(eng.mats) : LET m == eng.mats[i] IN m.E > 0 /\ m.nu \in 0..5 /\ m.c >= 0 /\ m.rho >= 0 /\ m.model \in Models
(* the global node numbers of the bodies partition 0..nodes-1, in creation order *)
Offsets == /\ \A i \in 1..Len(eng.bodies) : eng.bodies[i].off = SumSeq([j \in 1..(i - 1) |-> Len(eng.bodies[j].V)])
           /\ eng.nodes = SumSeq([j \in 1..Len(eng.bodies) |-> Len(eng.bodies[j].V)])
BoundaryConditions == \A i \in 1..Len(eng.bodies) : LET b == eng.bodies[i] IN
    /\ \A k \in 1..Len(b.dir) : b.dir[k].v = b.V[b.dir[k].i + 1]
    /\ \A k \in 1..Len(b.trac) : \E j \in 1..Len(b.S) : b.S[j] = b.trac[k].t
    /\ Len(b.x) = Len(b.V) /\ Len(b.u) = Len(b.V)
NoEffectWhenRejected == [][ ~last'.ok => eng' = eng ]_vars
OnlyTheNamedBodyChanges == [][ LET o == last'.o IN \A i \in 1..Len(eng.bodies) : (eng.bodies[i].name \notin {o[k] : k \in DOMAIN o \cap {"b"}}) => eng'.bodies[i] = eng.bodies[i] ]_vars
MaterialCoordinatesNeverChange == [][ \A i \in 1..Len(eng.bodies) : eng'.bodies[i].V = eng.bodies[i].V /\ eng'.bodies[i].off = eng.bodies[i].off ]_vars
Emit == IF Len(hist) = MaxLen THEN PrintT("SCRIPT " \o ToJson(hist)) ELSE TRUE
Bounded == Len(hist) <= MaxLen
KAll == {"create_body", "dirichlet", "traction", "set_velocity", "set_spatial", "set_type", "set_gravity", "set_material", "create_material", "set_elasticity", "set_viscosity", "set_density", "set_model", "create_inter"}
KBody == {"create_body", "dirichlet", "traction", "set_velocity", "set_spatial", "set_type", "set_gravity", "set_material"}
KMat == {"create_body", "set_material", "create_material", "set_elasticity", "set_viscosity", "set_density", "set_model", "create_inter"}
=============================================================================
