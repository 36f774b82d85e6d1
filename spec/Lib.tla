-------------------------------- MODULE Lib --------------------------------
(* Integer helpers shared by the specifications. Vectors are 3-tuples of integers; rotations are    *)
(* the 24 rotations of the cube, stored row-major as 9-tuples of integers.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OFF == 1073741824          \* projection of a value that is not on the lattice

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == { s[i] : i \in 1..Len(s) }
Near(a, b, tol) == a # OFF /\ b # OFF /\ Abs(a - b) <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
OnLattice(v) == \A i \in 1..Len(v) : v[i] # OFF

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE SumSetF(_, _)
SumSetF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSetF(f, S \ {x})

(* ---- vectors ---- *)
VAdd(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
VSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
VNeg(a) == << -a[1], -a[2], -a[3] >>
VScale(k, a) == << k * a[1], k * a[2], k * a[3] >>
VDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VCross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
VZero == << 0, 0, 0 >>
Unit(k) == [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]

(* ---- rotation matrices (row-major 9-tuples) ---- *)
MId == << 1, 0, 0, 0, 1, 0, 0, 0, 1 >>
MMul(a, b) == TLCEval([k \in 1..9 |-> LET i == (k - 1) \div 3  j == (k - 1) % 3
                              IN a[3 * i + 1] * b[j + 1] + a[3 * i + 2] * b[3 + j + 1] + a[3 * i + 3] * b[6 + j + 1]])
MTr(a) == << a[1], a[4], a[7], a[2], a[5], a[8], a[3], a[6], a[9] >>
MApp(a, v) == << a[1]*v[1] + a[2]*v[2] + a[3]*v[3], a[4]*v[1] + a[5]*v[2] + a[6]*v[3], a[7]*v[1] + a[8]*v[2] + a[9]*v[3] >>
MDet(a) == a[1]*(a[5]*a[9] - a[6]*a[8]) - a[2]*(a[4]*a[9] - a[6]*a[7]) + a[3]*(a[4]*a[8] - a[5]*a[7])
IsRot(a) == OnLattice(a) /\ MMul(a, MTr(a)) = MId /\ MDet(a) = 1
RotX == << 1, 0, 0, 0, 0, -1, 0, 1, 0 >>
RotY == << 0, 0, 1, 0, 1, 0, -1, 0, 0 >>
RotZ == << 0, -1, 0, 1, 0, 0, 0, 0, 1 >>
=============================================================================
