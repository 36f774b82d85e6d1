---------------------------- MODULE ProxSolverMC ----------------------------
(* Every run of the solver whose sweeps return arbitrary iterates. *)
EXTENDS ProxSolver, Json
CONSTANTS MaxX, MaxIt, Record
VARIABLES s, c, hist
vars == << s, c, hist >>
Params == { [max |-> m, abs4 |-> a, too4 |-> t, relN |-> n, relD |-> 4, up |-> u, down |-> 1] :
            m \in {1, MaxIt - 1, MaxIt}, a \in {0, 1, 5}, t \in {0, 1, 8}, n \in {0, 1, 2}, u \in {0, 1} }
Init == c \in Params /\ s = NewSolver(1) /\ hist = << >>
Next == /\ s.exit = -1
        /\ \E v \in 0..MaxX : s' = Iterate(s, << v >>, c) /\ hist' = IF Record THEN Append(hist, << v >>) ELSE hist
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Live == <>(s.exit # -1)
Stop == s.exit # -1
RollBack == s.exit \in {-1, 0} => s.x = s.sol              \* between iterations the iterate is the best known solution
Bounded == Len(s.res) <= c.max /\ s.it <= c.max
ExitMeaning == /\ s.exit = 0 => s.it = c.max
               /\ s.exit \in {1, 2} => s.it = Len(s.res) - 1
               /\ s.exit = 1 => s.res[Len(s.res)] < c.abs4
               /\ s.exit = 2 => s.res[Len(s.res)] >= c.abs4
ReturnsAnAcceptedIterate == s.sol = << 0 >> \/ \E i \in 1..Len(s.lam) : s.lam[i] = s.sol /\ ~s.rej[i]
RejectsExactlyTheGrowing == \A i \in 1..Len(s.res) : s.rej[i] => \E j \in 1..(i - 1) : s.res[j] < s.res[i]
MeritsNeverGrow == [][ s'.last <= s.last ]_vars
ShrinksOnlyOnDivergence == [][ s'.r < s.r => s'.sol = s.sol /\ s'.last = s.last /\ s'.x = s.sol ]_vars
Emit == IF Record /\ Stop THEN PrintT("SCRIPT " \o ToJson([c |-> c, xs |-> hist])) ELSE TRUE
=============================================================================
