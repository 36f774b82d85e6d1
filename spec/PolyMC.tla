------------------------------- MODULE PolyMC -------------------------------
(* Every small polynomial: derivatives obey the product structure of finite differences, and commute;   *)
(* the scatter of small clouds is translation invariant and positive.                                   *)
EXTENDS Poly
CONSTANTS Cs
VARIABLES poly, xx, yy, cl, done
vars == << poly, xx, yy, cl, done >>
Quad(c) == << [c |-> c[1], i |-> 0, j |-> 0], [c |-> c[2], i |-> 1, j |-> 0], [c |-> c[3], i |-> 0, j |-> 1],
              [c |-> c[4], i |-> 2, j |-> 0], [c |-> c[5], i |-> 1, j |-> 1], [c |-> c[6], i |-> 0, j |-> 2] >>
Pts == { << a, b, 1 >> : a \in 0..1, b \in 0..2 } \cup { << 0, 1, 3 >> }
Coefs == { k - 2 : k \in Cs }
Init == /\ poly \in { Quad(<< a, b, c, d, e, f >>) : a \in Coefs, b \in Coefs, c \in Coefs, d \in Coefs, e \in Coefs, f \in Coefs }
        /\ xx \in {-1, 2} /\ yy \in {0, 3} /\ cl = << << 0, 0, 0 >> >> /\ done = FALSE
Next == /\ ~done /\ xx' = xx + 1 /\ UNCHANGED << poly, yy >> /\ done' = TRUE
        /\ \E a \in Pts, b \in Pts : cl' = << << 0, 0, 0 >>, a, b >>
Spec == Init /\ [][Next]_vars
(* a quadratic's difference is the mean of its slopes *)
SlopeIsDifference == 2 * (Eval4(poly, xx + 1, yy) - Eval4(poly, xx, yy)) = Eval4(Diff(poly, 1), xx, yy) + Eval4(Diff(poly, 1), xx + 1, yy)
                     /\ 2 * (Eval4(poly, xx, yy + 1) - Eval4(poly, xx, yy)) = Eval4(Diff(poly, 2), xx, yy) + Eval4(Diff(poly, 2), xx, yy + 1)
MixedCommute == SamePoly(Diff(Diff(poly, 1), 2), Diff(Diff(poly, 2), 1))
Numbering == \A n \in 0..4 : { MonoIndex(t[1], t[2]) : t \in Monos(n) } = 1..(((n + 1) * (n + 2)) \div 2)
ScatterInvariant == Scatter(cl) = Scatter([k \in 1..Len(cl) |-> VAdd(cl[k], << 3, -1, 2 >>)])
ScatterPositive == \A u \in { << 1, 0, -1 >>, << 2, 1, 0 >>, << -1, 1, 1 >> } : VDot(u, MApp(Scatter(cl), u)) >= 0
TextSize == (Text(poly) = << >>) = (\A k \in 1..6 : poly[k].c = 0)
=============================================================================
