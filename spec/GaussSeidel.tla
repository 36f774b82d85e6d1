----------------------------- MODULE GaussSeidel -----------------------------
(* The adaptive Gauss-Seidel solver of the rigid body simulator as a state machine.                  *)
(* problem = [x, sol, r, last]: the iterate, the last accepted iterate, the R-factor as an exponent   *)
(* of two, the merit of the last accepted sweep (INF at the start).  Merits are integers in units     *)
(* 1/4; tolerances: abs4, too4 (in quarters) and rel = relN/relD.                                    *)
EXTENDS Lib
INF == 1000000000
NormInf(v) == IF Len(v) = 0 THEN 0 ELSE SetMax({ Abs(v[i]) : i \in 1..Len(v) })
Diff(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
NewProblem(n) == [x |-> [i \in 1..n |-> 0], sol |-> [i \in 1..n |-> 0], r |-> 0, last |-> INF]
(* one sweep moved the iterate to xn; c = parameters *)
Turn(p, xn, c) ==
  LET merit == 4 * NormInf(Diff(xn, p.sol))
  IN IF merit > p.last
     THEN [p |-> [p EXCEPT !.x = p.sol, !.r = @ - c.down], merit |-> p.last, accepted |-> FALSE]
     ELSE [p |-> [x |-> xn, sol |-> xn, last |-> merit,
                  r |-> IF p.last # INF /\ p.last - merit < c.too4 THEN p.r + c.up ELSE p.r], merit |-> merit, accepted |-> TRUE]
(* solver = [ps, glast, it, exit, res]; exit: -1 running, 0 iterations used up, 1 absolute, 2 relative *)
NewSolver(sizes) == [ps |-> [k \in 1..Len(sizes) |-> NewProblem(sizes[k])], glast |-> INF, it |-> 0, exit |-> -1, res |-> << >>]
Iterate(s, xs, c) ==
  LET T == [k \in 1..Len(s.ps) |-> Turn(s.ps[k], xs[k], c)]
      g == IF Len(s.ps) = 0 THEN 0 ELSE Max2(0, SetMax({ T[k].merit : k \in 1..Len(s.ps) }))
      relconv == s.glast # INF /\ Abs(g - s.glast) * c.relD < c.relN * s.glast
      ex == IF g < c.abs4 THEN 1 ELSE IF relconv THEN 2 ELSE IF s.it + 1 = c.max THEN 0 ELSE -1
  IN [ps |-> [k \in 1..Len(s.ps) |-> T[k].p], glast |-> g,
      it |-> IF ex = 1 \/ ex = 2 THEN s.it ELSE s.it + 1, exit |-> ex, res |-> Append(s.res, g)]
=============================================================================
