-------------------------------- MODULE Poly --------------------------------
(* Polynomials in x and y as sequences of terms [c, i, j] = c x^i y^j (coefficients in 1/4), integer    *)
(* point clouds, and vectors.                                                                           *)
EXTENDS Lib
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Eval4(p, x, y) == SumSeq([k \in 1..Len(p) |-> p[k].c * Pow(x, p[k].i) * Pow(y, p[k].j)])
CoefOf(p, i, j) == SumSeq([k \in 1..Len(p) |-> IF p[k].i = i /\ p[k].j = j THEN p[k].c ELSE 0])
SamePoly(p, q) == LET S == { << t.i, t.j >> : t \in Range(p) \cup Range(q) } IN \A s \in S : CoefOf(p, s[1], s[2]) = CoefOf(q, s[1], s[2])
Diff(p, d) == [k \in 1..Len(p) |-> IF d = 1 THEN [c |-> p[k].c * p[k].i, i |-> Max2(p[k].i - 1, 0), j |-> p[k].j]
                                   ELSE [c |-> p[k].c * p[k].j, i |-> p[k].i, j |-> Max2(p[k].j - 1, 0)]]
(* the monomials of a given order, by degree, then by falling power of x *)
Monos(n) == LET Terms == { << i, j >> : i \in 0..n, j \in 0..n } IN { t \in Terms : t[1] + t[2] <= n }
MonoIndex(i, j) == ((i + j) * (i + j + 1)) \div 2 + j + 1
(* text: a sequence of words *)
Frac(r) == CASE r = 1 -> ".25" [] r = 2 -> ".5" [] r = 3 -> ".75" [] OTHER -> ""
NumText(a) == ToString(a \div 4) \o Frac(a % 4)
VarText(v, k) == IF k = 0 THEN << >> ELSE IF k = 1 THEN << v >> ELSE << v \o "^" \o ToString(k) >>
TermWords(t) == LET a == Abs(t.c)  vars == VarText("x", t.i) \o VarText("y", t.j)
                IN IF a = 4 /\ vars # << >> THEN vars ELSE << NumText(a) >> \o vars
RECURSIVE Words(_, _, _)
Words(p, k, first) == IF k > Len(p) THEN << >>
                      ELSE IF p[k].c = 0 THEN Words(p, k + 1, first)
                      ELSE (IF p[k].c < 0 THEN << "-" >> ELSE IF first THEN << >> ELSE << "+" >>) \o TermWords(p[k]) \o Words(p, k + 1, FALSE)
Text(p) == Words(p, 1, TRUE)
(* scatter of integer points, times n: n (n - 1) times the covariance *)
SumOf(P, a) == SumSeq([k \in 1..Len(P) |-> P[k][a]])
Scatter(P) == [e \in 1..9 |-> LET a == ((e - 1) \div 3) + 1  b == ((e - 1) % 3) + 1
                              IN Len(P) * SumSeq([k \in 1..Len(P) |-> P[k][a] * P[k][b]]) - SumOf(P, a) * SumOf(P, b)]
LexLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
=============================================================================
