---------------------------- MODULE GaussSeidelMC ----------------------------
(* Every run of the solver on one or two problems whose sweeps return arbitrary iterates.            *)
EXTENDS GaussSeidel, Json
CONSTANTS NP, MaxX, MaxIt, Record
VARIABLES s, c, hist, acc
vars == << s, c, hist, acc >>
Params == { [max |-> m, abs4 |-> a, too4 |-> t, relN |-> n, relD |-> 4, up |-> 1, down |-> 1] :
            m \in {1, MaxIt - 1, MaxIt}, a \in {0, 1, 5}, t \in {0, 1, 8}, n \in {0, 1, 2} }
Init == /\ c \in Params
        /\ s = NewSolver([k \in 1..NP |-> 1]) /\ hist = << >>
        /\ acc = [k \in 1..NP |-> {0}]        \* the iterates that were ever accepted
Next == /\ s.exit = -1
        /\ \E xs \in [1..NP -> { << v >> : v \in 0..MaxX }] :
             /\ s' = Iterate(s, xs, c)
             /\ acc' = [k \in 1..NP |-> acc[k] \cup {s'.ps[k].sol[1]}]
             /\ hist' = IF Record THEN Append(hist, xs) ELSE hist
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Live == <>(s.exit # -1)
RollBack == \A k \in 1..NP : s.ps[k].x = s.ps[k].sol          \* after every iteration the iterate is the best known solution
NeverMoreThanMax == Len(s.res) <= c.max /\ s.it <= c.max
ExitMeaning == /\ s.exit = 0 => s.it = c.max
               /\ s.exit \in {1, 2} => s.it = Len(s.res) - 1
               /\ s.exit = 1 => s.res[Len(s.res)] < c.abs4
MeritsNeverGrow == [][ \A k \in 1..NP : s'.ps[k].last <= s.ps[k].last ]_vars
ResidualsNeverGrow == \A i \in 1..(Len(s.res) - 1) : s.res[i + 1] <= s.res[i]
RejectedSweepKeepsSolution == [][ \A k \in 1..NP : s'.ps[k].last = s.ps[k].last \/ s'.ps[k].last < s.ps[k].last ]_vars
RFactorMoves == [][ \A k \in 1..NP : Abs(s'.ps[k].r - s.ps[k].r) <= 1 ]_vars
ShrinksOnlyOnDivergence == [][ \A k \in 1..NP : s'.ps[k].r < s.ps[k].r => s'.ps[k].sol = s.ps[k].sol /\ s'.ps[k].last = s.ps[k].last ]_vars
Emit == IF Record /\ (s.exit # -1) THEN PrintT("SCRIPT " \o ToJson([c |-> c, xs |-> hist])) ELSE TRUE
=============================================================================
