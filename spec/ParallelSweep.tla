---------------------------- MODULE ParallelSweep ----------------------------
(* The coloured parallel Gauss-Seidel sweep as a concurrent algorithm.  K contacts with one normal      *)
(* force each; A is the coupling matrix.  The colour classes are processed one after the other; inside *)
(* a class one worker per contact first reads w = A x as it was when the class started, then writes     *)
(* its own force and its own contribution to w, in any interleaving; the contributions are added up     *)
(* when the class is done.                                                                             *)
EXTENDS Lib
CONSTANTS K, B, KeepAll           \* B: range of the right-hand side; KeepAll = FALSE: only contributions with a smaller index are added (a bug)
VARIABLES A, b, x, w, dw, todo, classes, read, x0
vars == << A, b, x, w, dw, todo, classes, read, x0 >>
C == 1..K
Edges == { e \in SUBSET C : Cardinality(e) = 2 }
Coupled(M, i, j) == M[i][j] # 0
Proper(f, M) == \A i, j \in C : i # j /\ Coupled(M, i, j) => f[i] # f[j]
(* the greedy colouring in order of index *)
RECURSIVE Greedy(_, _, _)
Greedy(M, f, i) == IF i > K THEN f
  ELSE LET used == { f[j] : j \in { j \in 1..(i - 1) : Coupled(M, i, j) } } IN Greedy(M, [f EXCEPT ![i] = SetMin(C \ used)], i + 1)
Colour(M) == Greedy(M, [i \in C |-> 0], 1)
Dot(M, i, v) == SumTo([j \in C |-> M[i][j] * v[j]], K)
Update(i, wi, v) == Max2(0, v[i] - wi - b[i])          \* x <- prox( x - r (A x + b) ), r = 1
Init == /\ \E E \in SUBSET Edges : A = [i \in C |-> [j \in C |-> IF i = j THEN 1 ELSE IF {i, j} \in E THEN -1 ELSE 0]]
        /\ b \in [C -> -B..B]
        /\ x0 \in [C -> 0..B] /\ x = x0
        /\ w = [i \in C |-> Dot(A, i, x0)] /\ dw = [i \in C |-> 0] /\ read = [i \in C |-> OFF]
        /\ classes = [c \in C |-> { i \in C : Colour(A)[i] = c }] /\ todo = << 1, classes[1] >>
Read(i) == i \in todo[2] /\ read[i] = OFF /\ read' = [read EXCEPT ![i] = w[i]] /\ UNCHANGED << A, b, x, w, dw, todo, classes, x0 >>
Write(i) == /\ i \in todo[2] /\ read[i] # OFF
            /\ x' = [x EXCEPT ![i] = Update(i, read[i], x)]
            /\ dw' = [dw EXCEPT ![i] = x'[i] - x[i]]
            /\ todo' = << todo[1], todo[2] \ {i} >>
            /\ UNCHANGED << A, b, w, classes, read, x0 >>
NextClass == /\ todo[2] = {} /\ todo[1] < K
             /\ todo' = << todo[1] + 1, classes[todo[1] + 1] >>
             /\ LET first == IF classes[todo[1] + 1] = {} THEN 1 ELSE SetMin(classes[todo[1] + 1])
                    kept == [i \in C |-> IF KeepAll \/ i < first THEN dw[i] ELSE 0]
                IN w' = [i \in C |-> Dot(A, i, x0) + Dot(A, i, kept)]
             /\ UNCHANGED << A, b, x, dw, classes, read, x0 >>
Next == (\E i \in C : Read(i) \/ Write(i)) \/ NextClass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == todo[1] = K /\ todo[2] = {}
(* the sequential sweep, contacts in order of (colour, index) *)
RECURSIVE Seq1(_, _)
Seq1(v, order) == IF order = << >> THEN v ELSE LET i == order[1] IN Seq1([v EXCEPT ![i] = Update(i, Dot(A, i, v), v)], Tail(order))
RECURSIVE Flat(_)
Flat(c) == IF c > K THEN << >> ELSE LET RECURSIVE L(_)
                                        L(S) == IF S = {} THEN << >> ELSE << SetMin(S) >> \o L(S \ {SetMin(S)}) IN L(classes[c]) \o Flat(c + 1)
ColouringIsProper == Proper(Colour(A), A)
EqualsSequential == Finished => x = Seq1(x0, Flat(1))
NonNegative == \A i \in C : x[i] >= 0
Ends == <>Finished
=============================================================================
