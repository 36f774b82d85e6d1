---------------------------- MODULE HingeSolveMC ----------------------------
(* Two bodies joined at their centres of mass, translating: repeated solves with drift correction.    *)
EXTENDS HingeSolve
CONSTANTS MaxSteps
VARIABLES st, h, d0, n, last
vars == << st, h, d0, n, last >>
Body(f, m, v) == [fixed |-> f, m |-> m, I |-> << 2, 0, 0, 0, 2, 0, 0, 0, 2 >>, r |-> VZero, v |-> v, w |-> VZero, dv |-> VZero, dw |-> VZero, mat |-> ""]
Vs == { VZero, << S, 0, -512 >>, << -768, 2 * S, 0 >> }
Init == /\ \E f \in BOOLEAN, m1 \in {1, 3}, m2 \in {1, 2}, v1 \in Vs, v2 \in Vs, pre \in BOOLEAN, red \in {0, 1, 2, 4} :
             st = [bodies |-> << Body(f, m1, IF f THEN VZero ELSE v1), Body(FALSE, m2, v2) >>, pre |-> pre, idt |-> 32, red4 |-> red]
        /\ \E d \in { VZero, << 64, 0, 0 >>, << -32, 16, 48 >> } : h = [A |-> 1, B |-> 2, pA |-> d, pB |-> VZero, nA |-> << 0, S, 0 >>, nB |-> << 0, S, 0 >>] /\ d0 = d
        /\ n = 0 /\ last = [e0 |-> 0, e1 |-> 0, p |-> VZero]
a == st.bodies[1]
b == st.bodies[2]
Solve ==     \* equal and opposite impulses so that vA - vB = -pull
  LET pull == Pull(st, Drift(h))
      rel == VAdd(VSub(a.v, b.v), pull)
      dvA == IF a.fixed THEN VZero ELSE VRDiv(VScale(-b.m, rel), a.m + b.m)
      dvB == IF a.fixed THEN rel ELSE VRDiv(VScale(a.m, rel), a.m + b.m)
  IN << [v |-> dvA, w |-> VZero], [v |-> dvB, w |-> VZero] >>
U(D) == [k \in 1..2 |-> After(st.bodies[k], D[k])]
Now == [k \in 1..2 |-> [v |-> st.bodies[k].v, w |-> VZero]]
Step == /\ n < MaxSteps
        /\ LET D == Solve  V == U(D) IN
             /\ st' = [st EXCEPT !.bodies[1].v = V[1].v, !.bodies[2].v = V[2].v]
             /\ h' = [h EXCEPT !.pA = VAdd(@, VRDiv(V[1].v, st.idt)), !.pB = VAdd(@, VRDiv(V[2].v, st.idt))]
             /\ last' = [e0 |-> KE2(st, Now), e1 |-> KE2(st, V), p |-> VAdd(Impulse(a, D[1]), Impulse(b, D[2]))]
        /\ n' = n + 1 /\ UNCHANGED d0
Spec == Init /\ [][Step]_vars
MomentumKept == n > 0 /\ ~a.fixed => MaxN(last.p) <= a.m + b.m
NoEnergyWithoutPull == n > 0 /\ (~st.pre \/ d0 = VZero) => last.e1 <= last.e0 + last.e0 \div 64 + 64
DriftShrinks == st.pre => MaxN(Drift(h)) <= MaxN(d0) + 2 * n
DriftHeals == st.pre /\ st.red4 = 4 /\ n > 0 => MaxN(Drift(h)) <= 2 * n
DriftKeptWithoutPull == ~st.pre => MaxN(VSub(Drift(h), d0)) <= 2 * n
FixedStays == a.fixed => a.v = VZero
MovesTogether == n > 0 /\ ~st.pre => MaxN(VSub(a.v, b.v)) <= 2
=============================================================================
