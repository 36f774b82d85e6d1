--------------------------- MODULE SelfCollideMC ---------------------------
(* A fixed and a moving triangle on a small lattice: the crossing predicate against its meaning.       *)
EXTENDS SelfCollide
CONSTANTS Size
VARIABLES t, n
vars == << t, n >>
Fixed == << << 0, 0, 0 >>, << 4, 0, 0 >>, << 0, 4, 2 >> >>
Shapes == { << << 0, 0, -2 >>, << 2, 0, 2 >>, << 0, 2, 2 >> >>, << << 0, 0, -1 >>, << 1, 1, 3 >>, << 3, 0, 0 >> >>,
            << << 0, 0, 0 >>, << 3, 0, 0 >>, << 0, 3, 0 >> >>, << << 1, -1, 0 >>, << 1, 3, 0 >>, << 1, 1, 3 >> >> }
Pos == -Size..Size
Init == \E s \in Shapes, x \in Pos, y \in Pos, z \in Pos : t = [k \in 1..3 |-> VAdd(s[k], << x, y, z >>)] /\ n = 0
Turn == n = 0 /\ t' = << t[2], t[3], t[1] >> /\ n' = 1
Flip == n = 0 /\ t' = << t[2], t[1], t[3] >> /\ n' = 2
Spec == Init /\ [][Turn \/ Flip]_vars
Symmetric == May(t, Fixed) = May(Fixed, t) /\ Must(t, Fixed) = Must(Fixed, t)
MustImpliesMay == Cross(t, Fixed) => Touch(t, Fixed)
Orientation == [][Touch(t, Fixed) = Touch(t', Fixed) /\ Cross(t, Fixed) = Cross(t', Fixed)]_vars
CrossImpliesBounds == Touch(t, Fixed) => Gap(t, Fixed) <= 0
Side(u, p) == Sgn(Vol(u[1], u[2], u[3], p))
Separated(u, w) == \E s \in {-1, 1} : \A i \in 1..3 : Side(u, w[i]) = s
SeparatedDoNotTouch == (Separated(Fixed, t) \/ Separated(t, Fixed)) => ~Touch(t, Fixed)
(* points of both triangles with barycentric weights in quarters: a common point means they touch,     *)
(* unless they are coplanar                                                                           *)
W == { w \in (0..4) \X (0..4) \X (0..4) : w[1] + w[2] + w[3] = 4 }
Pts(u) == { VAdd(VScale(w[1], u[1]), VAdd(VScale(w[2], u[2]), VScale(w[3], u[3]))) : w \in W }
Coplanar == \A i \in 1..3 : Side(Fixed, t[i]) = 0
CommonPoint == Pts(t) \cap Pts(Fixed) # {} /\ ~Coplanar => Touch(t, Fixed)
CrossNotSeparated == Cross(t, Fixed) => ~Separated(Fixed, t) /\ ~Separated(t, Fixed) /\ ~Coplanar
=============================================================================
