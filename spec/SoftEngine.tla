----------------------------- MODULE SoftEngine -----------------------------
(* The soft-body engine as the user sees it: bodies with their mesh, state and boundary conditions, materials, and  *)
(* material interactions.  Apply(st, o) says whether call o is accepted in state st and what the engine is then.     *)
(* Coordinates, velocities, loads and densities are integers; gravity is in hundredths, Poisson's ratio in tenths,   *)
(* friction in quarters.                                                                                             *)
EXTENDS TetMesh
EmptyEngine == [ bodies |-> << >>, mats |-> << [name |-> "default", E |-> 100000, nu |-> 3, c |-> 0, rho |-> 1000, model |-> "COR"] >>,
                 inter |-> << [a |-> "default", b |-> "default", mu |-> 4] >>, nodes |-> 0 ]
NewMat(n) == [name |-> n, E |-> 100000, nu |-> 3, c |-> 0, rho |-> 1000, model |-> "COR"]
(* a body keeps the mesh in the numbering V, T, S (nodes, elements, boundary triangles) the engine chose for it *)
NewBody(o, off) == [ name |-> o.n, off |-> off, V |-> o.V, T |-> o.T, S |-> o.S, mat |-> "default", fixed |-> FALSE, g |-> << 0, -982, 0 >>,
                     x |-> o.V, u |-> [i \in 1..Len(o.V) |-> VZero], dir |-> << >>, trac |-> << >> ]
Names(s) == { s[i].name : i \in 1..Len(s) }
Has(s, n) == n \in Names(s)
IdxOf(s, n) == CHOOSE i \in 1..Len(s) : s[i].name = n
Get(s, n) == s[IdxOf(s, n)]
Pair(a, b, x) == (x.a = a /\ x.b = b) \/ (x.a = b /\ x.b = a)
HasInter(st, a, b) == \E i \in 1..Len(st.inter) : Pair(a, b, st.inter[i])
Inter(st, a, b) == IF HasInter(st, a, b) THEN st.inter[CHOOSE i \in 1..Len(st.inter) : Pair(a, b, st.inter[i])] ELSE st.inter[1]
No(st) == [ ok |-> FALSE, st |-> st ]
Yes(st) == [ ok |-> TRUE, st |-> st ]
SetBody(st, n, F(_)) == IF Has(st.bodies, n) THEN Yes([st EXCEPT !.bodies[IdxOf(st.bodies, n)] = F(@)]) ELSE No(st)
SetMat(st, n, F(_), ok) == IF Has(st.mats, n) /\ ok THEN Yes([st EXCEPT !.mats[IdxOf(st.mats, n)] = F(@)]) ELSE No(st)
FixedWords == {"fixed", "Fixed", "FIXED", "FiXed"}
FreeWords == {"free", "Free", "FREE", "fREE"}
Models == {"SVK", "COR", "SNH"}
Proper(V, T) == \A i \in 1..Len(T) : Vol6(V, T[i]) > 0
(* the region "inside phi": the half space s * x[ax] <= lim of material coordinates *)
Inside(o, p) == o.s * p[o.ax] <= o.lim
RECURSIVE NodesIn(_, _, _)
NodesIn(o, V, i) == IF i > Len(V) THEN << >> ELSE (IF Inside(o, V[i]) THEN << [i |-> i - 1, v |-> V[i]] >> ELSE << >>) \o NodesIn(o, V, i + 1)
RECURSIVE TrisIn(_, _, _, _)
TrisIn(o, V, S, i) == IF i > Len(S) THEN << >>
  ELSE (IF \A k \in 1..3 : Inside(o, V[S[i][k] + 1]) THEN << [t |-> S[i], l |-> o.load] >> ELSE << >>) \o TrisIn(o, V, S, i + 1)
Apply(st, o) ==
  CASE o.op = "create_body" -> IF Has(st.bodies, o.n) \/ ~Proper(o.V, o.T) THEN No(st)
                               ELSE Yes([st EXCEPT !.bodies = Append(@, NewBody(o, st.nodes)), !.nodes = @ + Len(o.V)])
    [] o.op = "dirichlet" -> SetBody(st, o.b, LAMBDA b : [b EXCEPT !.dir = @ \o NodesIn(o, b.V, 1)])
    [] o.op = "traction" -> IF ~o.arr THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.trac = @ \o TrisIn(o, b.V, b.S, 1)])
    [] o.op = "set_velocity" -> IF Len(o.v) # 3 THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.u = [i \in 1..Len(b.V) |-> o.v]])
    [] o.op = "set_spatial" -> IF Has(st.bodies, o.b) /\ Len(o.x) # Len(Get(st.bodies, o.b).V) THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.x = o.x])
    [] o.op = "set_type" -> IF o.t \notin FixedWords \cup FreeWords THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.fixed = (o.t \in FixedWords)])
    [] o.op = "set_gravity" -> IF Len(o.g) # 3 THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.g = o.g])
    [] o.op = "set_material" -> IF ~Has(st.mats, o.m) THEN No(st) ELSE SetBody(st, o.b, LAMBDA b : [b EXCEPT !.mat = o.m])
    [] o.op = "create_material" -> IF Has(st.mats, o.m) THEN No(st) ELSE Yes([st EXCEPT !.mats = Append(@, NewMat(o.m))])
    [] o.op = "set_elasticity" -> SetMat(st, o.m, LAMBDA m : [m EXCEPT !.E = o.E, !.nu = o.nu], o.E > 0 /\ o.nu >= 0 /\ o.nu <= 5)
    [] o.op = "set_viscosity" -> SetMat(st, o.m, LAMBDA m : [m EXCEPT !.c = o.c], o.c >= 0)
    [] o.op = "set_density" -> SetMat(st, o.m, LAMBDA m : [m EXCEPT !.rho = o.rho], o.rho >= 0)
    [] o.op = "set_model" -> SetMat(st, o.m, LAMBDA m : [m EXCEPT !.model = o.model], o.model \in Models)
    [] o.op = "create_inter" -> IF ~Has(st.mats, o.a) \/ ~Has(st.mats, o.b) \/ HasInter(st, o.a, o.b) \/ o.mu < 0 THEN No(st)
                                ELSE Yes([st EXCEPT !.inter = Append(@, [a |-> o.a, b |-> o.b, mu |-> o.mu])])
Queries == {"get_material", "get_inter", "exist_inter", "exist_material"}
Query(st, o) ==
  CASE o.op = "get_material" -> [ok |-> Has(st.bodies, o.b), val |-> IF Has(st.bodies, o.b) THEN Get(st.bodies, o.b).V ELSE << >>]
    [] o.op = "get_inter" -> [ok |-> TRUE, val |-> Inter(st, o.a, o.b).mu]
    [] o.op = "exist_inter" -> [ok |-> TRUE, val |-> HasInter(st, o.a, o.b)]
    [] o.op = "exist_material" -> [ok |-> TRUE, val |-> \E i \in 1..Len(st.inter) : o.m \in {st.inter[i].a, st.inter[i].b}]
(* what follows from the stored state: mass and damping matrices belong to the current material *)
Mat(st, b) == Get(st.mats, b.mat)
SumVol6(b) == SumSeq([i \in 1..Len(b.T) |-> Vol6(b.V, b.T[i])])
=============================================================================
