---------------------------- MODULE RigidEngine ----------------------------
(* The rigid-body engine as the user sees it: the registries behind the setup calls (bodies, shapes, *)
(* forces, hinges, material interactions) and the placement of bodies by body frame or model frame.  *)
(*                                                                                                    *)
(* One operator, Apply(st, o), is the whole meaning of a call: it says whether the call o is accepted *)
(* in state st and what the engine is afterwards.  The design specification (Next) and the trace      *)
(* specification (RigidEngineTrace) both use it.                                                      *)
(* Lengths are integers; orientations are cube rotations (integer matrices); material coefficients,   *)
(* gravity and damping coefficients are in quarters; the second moments of a shape are 12 * I.        *)
EXTENDS Lib

NoShape == ""

EmptyEngine == [ bodies |-> << >>, hinges |-> << >>, shapes |-> << >>, forces |-> << >>,
                 inter |-> << [a |-> "default", b |-> "default", eps |-> 0, mu |-> << 4, 4, 4 >>] >> ]

NewBody(n) == [ name |-> n, shape |-> NoShape, forces |-> << >>, mat |-> "default", fixed |-> FALSE,
                mass |-> 0, inertia |-> VZero, r |-> VZero, R |-> MId, v |-> VZero, w |-> VZero ]
NewHinge(n) == [ name |-> n, parent |-> "", child |-> "", arm_p |-> VZero, arm_c |-> VZero,
                 axis_p |-> VZero, axis_c |-> VZero ]

(* ---- lookups ---- *)
Names(s) == { s[i].name : i \in 1..Len(s) }
Has(s, n) == n \in Names(s)
IdxOf(s, n) == CHOOSE i \in 1..Len(s) : s[i].name = n
Get(s, n) == s[IdxOf(s, n)]
Upd(s, n, x) == [s EXCEPT ![IdxOf(s, n)] = x]

Pair(a, b, x) == (x.a = a /\ x.b = b) \/ (x.a = b /\ x.b = a)
HasInter(st, a, b) == \E i \in 1..Len(st.inter) : Pair(a, b, st.inter[i])
Inter(st, a, b) == IF HasInter(st, a, b)
                   THEN st.inter[CHOOSE i \in 1..Len(st.inter) : Pair(a, b, st.inter[i])]
                   ELSE st.inter[CHOOSE i \in 1..Len(st.inter) : Pair("default", "default", st.inter[i])]
HasMaterial(st, m) == \E i \in 1..Len(st.inter) : m \in {st.inter[i].a, st.inter[i].b}

No(st) == [ ok |-> FALSE, st |-> st ]
Yes(st) == [ ok |-> TRUE, st |-> st ]
SetBody(st, b) == [st EXCEPT !.bodies = Upd(st.bodies, b.name, b)]

(* ---- frames: x_world = R x_body + r ;  x_model = S x_body + c  (S, c: the shape's) ---- *)
ModelRot(b, s) == MMul(b.R, MTr(s.R))
ModelPos(b, s) == VSub(b.r, MApp(ModelRot(b, s), s.com))

FixedWords == {"fixed", "Fixed", "FIXED"}
FreeWords == {"free", "Free", "FREE"}

UnitAxis(a) == LET k == CHOOSE i \in 1..3 : a[i] # 0 IN [i \in 1..3 |-> IF i = k THEN a[i] \div Abs(a[i]) ELSE 0]

(* world position and axis of a hinge given in one of three spaces of the parent *)
HingeWorld(st, o) ==
  LET p == Get(st.bodies, o.parent) IN
  CASE o.mode = "world" -> [ o |-> o.origin, s |-> UnitAxis(o.axis) ]
    [] o.mode = "body"  -> [ o |-> VAdd(MApp(p.R, o.origin), p.r), s |-> MApp(p.R, UnitAxis(o.axis)) ]
    [] OTHER -> LET s == Get(st.shapes, p.shape) IN
                [ o |-> VAdd(MApp(ModelRot(p, s), o.origin), ModelPos(p, s)),
                  s |-> MApp(ModelRot(p, s), UnitAxis(o.axis)) ]

Apply(st, o) ==
  CASE o.op = "create_body" ->
         IF Has(st.bodies, o.n) THEN No(st) ELSE Yes([st EXCEPT !.bodies = Append(@, NewBody(o.n))])
    [] o.op = "create_hinge" ->
         IF Has(st.hinges, o.n) THEN No(st) ELSE Yes([st EXCEPT !.hinges = Append(@, NewHinge(o.n))])
    [] o.op = "create_shape" ->     \* S, com, mass, inertia: the computed body frame and unit-density mass properties
         IF Has(st.shapes, o.n) THEN No(st)
         ELSE Yes([st EXCEPT !.shapes = Append(@, [ name |-> o.n, R |-> o.S, com |-> o.com, mass |-> o.mass, inertia |-> o.inertia ])])
    [] o.op = "connect_shape" ->
         IF ~Has(st.bodies, o.b) \/ ~Has(st.shapes, o.s) THEN No(st)
         ELSE Yes(SetBody(st, [Get(st.bodies, o.b) EXCEPT !.shape = o.s]))
    [] o.op = "create_gravity" ->
         IF Has(st.forces, o.n) \/ o.g <= 0 THEN No(st)
         ELSE Yes([st EXCEPT !.forces = Append(@, [ name |-> o.n, kind |-> "Gravity", p |-> << o.g, 0 >>, up |-> UnitAxis(o.up) ])])
    [] o.op = "create_damping" ->
         IF Has(st.forces, o.n) \/ o.alpha <= 0 \/ o.beta <= 0 THEN No(st)
         ELSE Yes([st EXCEPT !.forces = Append(@, [ name |-> o.n, kind |-> "Damping", p |-> << o.alpha, o.beta >>, up |-> VZero ])])
    [] o.op = "connect_force" ->
         IF ~Has(st.bodies, o.b) \/ ~Has(st.forces, o.f) THEN No(st)
         ELSE LET b == Get(st.bodies, o.b) IN
              IF o.f \in Range(b.forces) THEN No(st)
              ELSE Yes(SetBody(st, [b EXCEPT !.forces = Append(@, o.f)]))
    [] o.op = "set_position" ->
         IF ~Has(st.bodies, o.b) THEN No(st)
         ELSE LET b == Get(st.bodies, o.b) IN
              IF ~o.mf THEN Yes(SetBody(st, [b EXCEPT !.r = o.r]))
              ELSE IF b.shape = NoShape THEN No(st)
              ELSE LET s == Get(st.shapes, b.shape) IN
                   Yes(SetBody(st, [b EXCEPT !.r = VAdd(MApp(ModelRot(b, s), s.com), o.r)]))
    [] o.op = "set_orientation" ->
         IF ~Has(st.bodies, o.b) THEN No(st)
         ELSE LET b == Get(st.bodies, o.b) IN
              IF ~o.mf THEN Yes(SetBody(st, [b EXCEPT !.R = o.R]))
              ELSE IF b.shape = NoShape THEN No(st)
              ELSE LET s == Get(st.shapes, b.shape) IN
                   Yes(SetBody(st, [b EXCEPT !.R = MMul(o.R, s.R), !.r = VAdd(MApp(o.R, s.com), ModelPos(b, s))]))
    [] o.op = "set_velocity" ->
         IF ~Has(st.bodies, o.b) THEN No(st) ELSE Yes(SetBody(st, [Get(st.bodies, o.b) EXCEPT !.v = o.v]))
    [] o.op = "set_spin" ->
         IF ~Has(st.bodies, o.b) THEN No(st) ELSE Yes(SetBody(st, [Get(st.bodies, o.b) EXCEPT !.w = o.v]))
    [] o.op = "set_mass" ->
         IF ~Has(st.bodies, o.b) THEN No(st)
         ELSE LET b == Get(st.bodies, o.b) IN
              IF b.shape = NoShape THEN No(st)
              ELSE LET s == Get(st.shapes, b.shape) IN
                   Yes(SetBody(st, [b EXCEPT !.mass = s.mass * o.rho, !.inertia = VScale(o.rho, s.inertia)]))
    [] o.op = "set_type" ->
         IF ~Has(st.bodies, o.b) \/ o.t \notin FixedWords \cup FreeWords THEN No(st)
         ELSE Yes(SetBody(st, [Get(st.bodies, o.b) EXCEPT !.fixed = (o.t \in FixedWords)]))
    [] o.op = "set_material" ->
         IF ~Has(st.bodies, o.b) \/ ~HasMaterial(st, o.m) THEN No(st)
         ELSE Yes(SetBody(st, [Get(st.bodies, o.b) EXCEPT !.mat = o.m]))
    [] o.op = "create_inter" ->
         IF HasInter(st, o.a, o.b) \/ o.eps < 0 \/ o.mu[1] < 0 \/ o.mu[2] < 0 \/ o.mu[3] < 0 THEN No(st)
         ELSE Yes([st EXCEPT !.inter = Append(@, [ a |-> o.a, b |-> o.b, eps |-> o.eps, mu |-> o.mu ])])
    [] o.op = "set_hinge" ->
         IF ~Has(st.hinges, o.h) \/ ~Has(st.bodies, o.parent) \/ ~Has(st.bodies, o.child)
            \/ o.mode \notin {"world", "body", "model"}
            \/ (o.mode = "model" /\ Get(st.bodies, o.parent).shape = NoShape) THEN No(st)
         ELSE LET W == HingeWorld(st, o)
                  p == Get(st.bodies, o.parent)
                  c == Get(st.bodies, o.child)
                  h == [ name |-> o.h, parent |-> o.parent, child |-> o.child,
                         arm_p |-> MApp(MTr(p.R), VSub(W.o, p.r)), arm_c |-> MApp(MTr(c.R), VSub(W.o, c.r)),
                         axis_p |-> MApp(MTr(p.R), W.s), axis_c |-> MApp(MTr(c.R), W.s) ]
              IN Yes([st EXCEPT !.hinges = Upd(st.hinges, o.h, h)])
    [] OTHER -> No(st)

(* ---- queries: [ok, val] ---- *)
Query(st, o) ==
  CASE o.op \in {"get_position", "get_orientation", "get_velocity", "get_spin", "is_fixed"} ->
         IF ~Has(st.bodies, o.b) THEN [ ok |-> FALSE, val |-> << >> ]
         ELSE LET b == Get(st.bodies, o.b) IN
              [ ok |-> TRUE, val |-> CASE o.op = "get_position" -> b.r [] o.op = "get_orientation" -> b.R
                                       [] o.op = "get_velocity" -> b.v [] o.op = "get_spin" -> b.w
                                       [] OTHER -> << IF b.fixed THEN 1 ELSE 0 >> ]
    [] o.op = "get_inter" -> LET x == Inter(st, o.a, o.b) IN [ ok |-> TRUE, val |-> << x.eps >> \o x.mu ]
    [] o.op = "exist_inter" -> [ ok |-> TRUE, val |-> << IF HasInter(st, o.a, o.b) THEN 1 ELSE 0 >> ]
    [] OTHER -> [ ok |-> TRUE, val |-> << IF HasMaterial(st, o.m) THEN 1 ELSE 0 >> ]
Queries == {"get_position", "get_orientation", "get_velocity", "get_spin", "is_fixed", "get_inter", "exist_inter", "exist_material"}
=============================================================================
