------------------------------- MODULE MassMC -------------------------------
(* Laws of the mass properties, on tetrahedra: parallel axes, rotation, additivity, order. *)
EXTENDS Mass
CONSTANT B, SHIFTS
VARIABLE x
Pts == { << a, b, c >> : a \in 0..B, b \in 0..B, c \in 0..B }
TetFaces == << << 1, 3, 2 >>, << 1, 2, 4 >>, << 2, 3, 4 >>, << 1, 4, 3 >> >>
Sh == { << a, b, c >> : a \in SHIFTS, b \in SHIFTS, c \in SHIFTS }
Init == x \in { << p, q, r, t >> : p \in Pts, q \in Pts, r \in Pts, t \in Sh }
Next == UNCHANGED x
V == << VZero, x[1], x[2], x[3] >>
T == TetFaces
Volume == V6(V, T) = VDot(x[1], VCross(x[2], x[3]))
W == [ k \in 1..4 |-> VAdd(V[k], x[4]) ]
v == V6(V, T)  m == M24(V, T)  t == x[4]
Translation == /\ V6(W, T) = v
               /\ M24(W, T) = VAdd(m, VScale(4 * v, t))
               /\ LET a == S120(V, T)  b == S120(W, T) IN \A e \in 1..6 : LET i == Pair[e][1]  j == Pair[e][2] IN
                     b[e] = a[e] + 5 * (m[i] * t[j] + m[j] * t[i]) + 20 * v * t[i] * t[j]
(* the central moments do not see the translation, and are those of a positive body *)
CentralLaw == v > 0 => LET a == Central(V, T)  b == Central(W, T) IN
                 /\ \A e \in 1..6 : Abs(a[e] - b[e]) <= 1
                 /\ \A e \in 1..3 : a[e] > 0
                 /\ LET I == Inertia(a) IN I[1] + I[2] >= I[3] /\ I[2] + I[3] >= I[1] /\ I[1] + I[3] >= I[2]
(* a rotated solid has the rotated moments *)
RotV(R) == [ k \in 1..4 |-> MApp(R, V[k]) ]
Full(S) == << S[1], S[4], S[5], S[4], S[2], S[6], S[5], S[6], S[3] >>
Rotated == \A R \in { RotX, RotY, RotZ } :
              /\ V6(RotV(R), T) = v /\ M24(RotV(R), T) = MApp(R, m)
              /\ Full(S120(RotV(R), T)) = MMul(R, MMul(Full(S120(V, T)), MTr(R)))
(* cutting the solid through an inner point, starting a triangle elsewhere and another order of the triangles change nothing *)
Ctr == << x[4], x[1], x[2], x[3], VZero >>
Cut == << << 5, 2, 1 >>, << 2, 3, 1 >>, << 3, 5, 1 >>, << 5, 3, 2 >>,  << 5, 1, 2 >>, << 2, 4, 5 >>, << 1, 4, 2 >>, << 5, 4, 1 >>,
          << 2, 1, 3 >>, << 3, 4, 2 >>, << 1, 4, 3 >>, << 2, 4, 1 >>,  << 3, 1, 5 >>, << 5, 4, 3 >>, << 1, 4, 5 >>, << 3, 4, 1 >> >>
Additive == V6(Ctr, Cut) = v /\ M24(Ctr, Cut) = m /\ S120(Ctr, Cut) = S120(V, T)
Turned == << << 2, 4, 3 >>, << 3, 4, 1 >>, << 1, 4, 2 >>, << 3, 2, 1 >> >>
Reordered == V6(V, [k \in 1..4 |-> << Turned[k][1], Turned[k][3], Turned[k][2] >>]) = v
Mirrored == LET U == [k \in 1..4 |-> << T[k][2], T[k][1], T[k][3] >>] IN V6(V, U) = -v
CongruentLaw == \A R \in { RotX, RotY, MMul(RotX, RotZ) } :
   LET Bv == << v * v + 1, m[1] * m[1], 3 >> IN
     /\ Congruent(R, Bv) = MMul(R, MMul(<< Bv[1], 0, 0, 0, Bv[2], 0, 0, 0, Bv[3] >>, MTr(R)))
Inv == Volume /\ Translation /\ CentralLaw /\ Rotated /\ Mirrored /\ CongruentLaw /\ Reordered /\ Additive
=============================================================================
