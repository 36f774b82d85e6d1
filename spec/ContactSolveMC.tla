--------------------------- MODULE ContactSolveMC ---------------------------
(* A box on a floor stepped again and again, and the material table.                                  *)
EXTENDS ContactSolve
CONSTANTS MaxSteps
VARIABLES q, q0, n, pushed
vars == << q, q0, n, pushed >>
Init == /\ \E g \in {-64, -40, -16, -4, -1}, vn \in {-2 * S, -S, -256, 0, 512}, vt \in {-S, 0, 768}, a \in {0, -128}, e \in {0, 1, 2, 4}, mu \in {0, 1, 2, 6},
              pre \in BOOLEAN, post \in BOOLEAN, mg \in {16, 256}, red \in {1, 2, 4} :
             q = [g |-> g, vn |-> vn, vt |-> vt, a |-> a, e4 |-> e, mu4 |-> mu, pre |-> pre, post |-> post, idt |-> 64, red4 |-> red, mingap |-> 1, maxgap |-> mg]
        /\ q0 = q /\ n = 0 /\ pushed = 0
Step == /\ n < MaxSteps /\ q.g <= 0
        /\ LET v == FlatNormal(q) IN
             /\ q' = [q EXCEPT !.vn = v, !.vt = FlatSlide(q), !.g = q.g + FlatMove(q)]
             /\ pushed' = v - q.vn - q.a
        /\ n' = n + 1 /\ UNCHANGED q0
Spec == Init /\ [][Step]_vars
OnlyPushes == pushed >= 0
NoSpring == [][ ~q.pre => Abs(q'.vn) <= Max2(Abs(q.vn), Abs(q.vn + q.a)) ]_vars                   \* without drift correction no energy comes in (e <= 1)
NeverSinks == [][ q'.vn >= 0 \/ q.vn > 0 \/ q'.vn >= RDiv(-(q.e4 * q.vn), 4) ]_vars
SlidingNeverReverses == (q0.vt >= 0 => q.vt \in 0..q0.vt) /\ (q0.vt <= 0 => q.vt <= 0 /\ q.vt >= q0.vt)
FrictionlessKeepsSliding == q0.mu4 = 0 => q.vt = q0.vt
PostClosesTheGap == [][ q.post /\ q.g < -q.mingap => q'.g >= 0 ]_vars
PreShrinksTheGap == [][ q.pre /\ q.g < -q.mingap /\ q.vn <= 0 /\ q.e4 = 0 => q'.g - q.g >= Min2(q.maxgap, RDiv(-q.g * q.red4, 4)) - 1 ]_vars
RestsWithoutStabilization == (q0.vn = 0 /\ ~q0.pre /\ ~q0.post) => q.vn = 0 /\ q.g = q0.g
(* lookup in either order *)
Mats == {"default", "a", "b"}
Tables == { << [a |-> "default", b |-> "default", mu4 |-> 4, eps4 |-> 0] >> \o t :
            t \in { << >>, << [a |-> "a", b |-> "b", mu4 |-> 1, eps4 |-> 1] >>, << [a |-> "b", b |-> "b", mu4 |-> 2, eps4 |-> 1], [a |-> "default", b |-> "a", mu4 |-> 3, eps4 |-> 1] >> } }
LookupLaws == \A t \in Tables, x \in Mats, y \in Mats :
   /\ Interaction(t, x, y) = Interaction(t, y, x)
   /\ (\A i \in 2..Len(t) : {t[i].a, t[i].b} # {x, y}) => Interaction(t, x, y) = t[1]
=============================================================================
