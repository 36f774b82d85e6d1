------------------------- MODULE SoftContactSolveMC -------------------------
(* Frictionless impulses applied again and again to two tetrahedra: every impulse obeys the laws that  *)
(* the trace clauses ask of the code.                                                                  *)
EXTENDS SoftContactSolve
CONSTANTS MaxHits
VARIABLES nodes, cs, last, hits, fixedset
vars == << nodes, cs, last, hits, fixedset >>
T == 6
Weights == { << 4, 0, 0, 0 >>, << 2, 1, 1, 0 >>, << 0, 2, 2, 0 >>, << 1, 1, 1, 1 >>, << -2, 2, 2, 2 >> }
Normals == { << 0, S, 0 >>, << 614, 0, -819 >> }
Masses == { << 1, 2, 1, 4, 2, 2, 1, 1 >> }
Fixed == { {}, {1, 6}, {5, 6, 7, 8} }
Init == /\ \E m \in Masses, F \in Fixed, v \in { << 0, -S, 0 >>, << 512, 0, 1536 >>, << 0, 2 * S, 0 >> } :
              /\ nodes = [i \in 1..8 |-> [m |-> m[i], fixed |-> i \in F, u |-> IF i \in F THEN VZero ELSE IF i > 4 THEN v ELSE << 0, 0, 256 >>]]
              /\ fixedset = F
        /\ cs = [c \in {} |-> 0] /\ last = << >> /\ hits = 0
Hit == /\ hits < MaxHits
       /\ \E wa \in Weights, wb \in Weights, n \in Normals :
            LET c == [a |-> << 1, 2, 3, 4 >>, b |-> << 5, 6, 7, 8 >>, wa |-> wa, wb |-> wb, n |-> n, g |-> 0, mu4 |-> 0]
                y == Dot(n, Rel(c, Vel(nodes)))
                P == SingleImpulse(nodes, c, y)
                U == Apply(nodes, c, P)
            IN /\ last' = [c |-> c, y |-> y, P |-> P, y2 |-> Dot(n, Rel(c, U)), before |-> Vel(nodes)]
               /\ nodes' = [i \in 1..8 |-> [nodes[i] EXCEPT !.u = U[i]]]
       /\ hits' = hits + 1 /\ UNCHANGED << cs, fixedset >>
Spec == Init /\ [][Hit]_vars
After == hits > 0
Push == After => last.P >= 0
NoApproach == After /\ Compliance(nodes, last.c) # 0 => last.y2 >= -T
Complementary == After /\ last.P > 0 => Abs(last.y2) <= T
FixedStay == \A i \in fixedset : nodes[i].u = VZero
MomentumKept == After /\ fixedset = {} => MaxN(VSub(Momentum(nodes, Vel(nodes)), Momentum(nodes, last.before))) <= 16
NoEnergyGained == After => KE2(nodes, Vel(nodes)) <= KE2(nodes, last.before) + KE2(nodes, last.before) \div 32 + 64
=============================================================================
