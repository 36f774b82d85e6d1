---------------------------- MODULE RotationTrace ---------------------------
(* unit quaternions and matrices are measured in 1/4096 *)
EXTENDS Rotation, TraceRun
K == 4096
RStart(ev) == [ k |-> 0 ]
AlgebraFails(ev) ==
  LET a == ev.a  b == ev.b  v == ev.v
  IN (IF ev.prod = QMul(a, b) THEN {} ELSE {"product"})
     \cup (IF ev.conj = QConj(a) THEN {} ELSE {"conjugate"})
     \cup (IF ev.zero = << 1, 0, 0, 0 >> THEN {} ELSE {"unit_of_zero"})
     \cup (IF ev.rot = QRot(a, v) THEN {} ELSE {"rotate"})
     \cup (IF ev.left = << QMul(a, b), QMul(a, QOf(v)) >> /\ ev.right = << QMul(b, a), QMul(QOf(v), a) >> THEN {} ELSE {"array_product"})
     \cup (IF ev.rots = << QRot(a, v), QRot(a, QVec(b)) >> THEN {} ELSE {"array_rotate"})
     \cup (IF ev.vec = QOf(v) THEN {} ELSE {"from_vector"})
     \cup (IF QDot(ev.hat, a) = 0 /\ QNorm2(ev.hat) = QNorm2(a) THEN {} ELSE {"orthogonal_quaternion"})
     \cup (IF ev.lerp = QAdd(QScale(4 - ev.t, a), QScale(ev.t, b)) THEN {} ELSE {"linear_interpolation"})
     \cup (IF ev.star = VCross(v, QVec(a)) THEN {} ELSE {"cross_product_matrix"})
     \cup (IF ev.rows = << v[1], v[2], v[3], a[2], a[3], a[4], b[2], b[3], b[4] >> /\ ev.cols = MTr(ev.rows) THEN {} ELSE {"matrix_from_vectors"})
     \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
MatIs(m, q) == LET n == QNorm2(q)  e == QMat(q) IN \A i \in 1..9 : m[i] # OFF /\ Abs(m[i] * n - K * e[i]) <= n + (Abs(e[i]) \div 1000)
PI2 == 25736      \* 2 pi
ConvertFails(ev) ==
  LET q == ev.q  n == QNorm2(q)
  IN (IF SameDir(ev.unit, q, 1) /\ UnitLen(ev.unit, K, 4) THEN {} ELSE {"unit_quaternion"})
     \cup (IF MatIs(ev.mat, q) THEN {} ELSE {"matrix_of_quaternion"})
     \cup (IF Along(ev.back, q, 1) /\ UnitLen(ev.back, K, 4) THEN {} ELSE {"quaternion_of_matrix"})
     \cup (IF ev.angle >= 0 /\ ev.angle <= PI2 + 1 THEN {} ELSE {"angle_range"})
     \cup (IF QVec(q) = VZero \/ SameDir(ev.again, q, 1) THEN {} ELSE {"angle_and_axis"})
     \cup (IF QVec(q) # VZero \/ (ev.axis = VZero /\ ev.angle = (IF q[1] > 0 THEN 0 ELSE PI2)) THEN {} ELSE {"angle_and_axis"})
     \cup (IF QVec(q) = VZero \/ (\A i \in 1..2 : MatIs(ev.about[i], q) /\ ev.angles[i] > 2 - PI2 \div 2 /\ ev.angles[i] <= PI2 \div 2 + 1) THEN {} ELSE {"angle_about_axis"})
     \cup (IF \A i \in 1..2 : MatIs(ev.euler[i], q) THEN {} ELSE {"euler_angles"})
     \cup (IF \A i \in 1..2 : Abs(ev.abc[i][1]) <= PI2 \div 2 + 1 /\ Abs(ev.abc[i][2]) <= PI2 \div 4 + 1 /\ Abs(ev.abc[i][3]) <= PI2 \div 2 + 1 THEN {} ELSE {"euler_ranges"})
RuFails(ev) ==
  LET q == << ev.n, ev.m * ev.axis[1], ev.m * ev.axis[2], ev.m * ev.axis[3] >>
  IN (IF \A i \in 1..Len(ev.qs) : SameDir(ev.qs[i], q, 1) /\ UnitLen(ev.qs[i], K, 4) THEN {} ELSE {"quaternion_about_axis"})
     \cup (IF \A i \in 1..Len(ev.ms) : MatIs(ev.ms[i], q) THEN {} ELSE {"matrix_about_axis"})
(* a, b: integer, of the same norm; ua, ub: measured; s: slerp at 0, 1/4, 1/2, 3/4, 1, below 0, above 1 *)
SlerpFails(ev) ==
  LET a == ev.a  b == ev.b  d == QDot(a, b)  sb == IF d < 0 THEN QNeg(b) ELSE b  sub == IF d < 0 THEN QNeg(ev.ub) ELSE ev.ub
      s == ev.s
      midok(r, p, q) == Along(r, QAdd(p, IF QDot(p, q) < 0 THEN QNeg(q) ELSE q), 4)
  IN IF \E i \in 1..7 : ~UnitLen(s[i], K, 8) THEN {"interpolated_quaternion_is_unit"}
     ELSE (IF Along(s[1], a, 2) /\ Along(s[5], b, 2) /\ Along(s[6], a, 2) /\ Along(s[7], b, 2) THEN {} ELSE {"interpolation_ends"})
     \cup (IF Along(s[3], QAdd(a, sb), 2) \/ (d = 0 /\ Along(s[3], QAdd(a, QNeg(b)), 2)) THEN {} ELSE {"interpolation_middle"})
     \cup (IF d = 0 \/ (midok(s[2], ev.ua, s[3]) /\ midok(s[4], sub, s[3])) THEN {} ELSE {"interpolation_constant_speed"})
OrthoFails(ev) ==   \* rows r1, r2, r3 of the result; argument rows ev.a (integer)
  LET r == ev.r  d(x, y) == VDot(x, y)
      a1 == << ev.a[1], ev.a[2], ev.a[3] >>  a2 == << ev.a[4], ev.a[5], ev.a[6] >>
      r1 == << r[1], r[2], r[3] >>  r2 == << r[4], r[5], r[6] >>  r3 == << r[7], r[8], r[9] >>
      par(x, y, t) == LET c == VCross(x, y) IN \A i \in 1..3 : Abs(c[i]) <= t
  IN (IF OnLattice(r) /\ (\A p \in { << r1, r1 >>, << r2, r2 >>, << r3, r3 >> } : Abs(d(p[1], p[2]) - K * K) <= 8 * K) /\ Abs(d(r1, r2)) <= 8 * K /\ Abs(d(r1, r3)) <= 8 * K /\ Abs(d(r2, r3)) <= 8 * K
      THEN {} ELSE {"orthonormal_rows"})
     \cup (IF par(r1, a1, 20) /\ d(r1, a1) > 0 /\ Abs(d(r3, a2)) <= 20 /\ d(r2, a2) > 0 THEN {} ELSE {"orthonormal_rows_span"})
     \cup (LET c == VCross(r1, r2) IN IF \A i \in 1..3 : Abs(c[i] - K * r3[i]) <= 8 * K THEN {} ELSE {"orthonormal_right_handed"})
     \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
XOf(x) == [m |-> x.m, r |-> x.r]
CoordFails(ev) ==
  LET A == XOf(ev.A)  B == XOf(ev.B)
  IN (IF ev.ident = [m |-> MId, r |-> VZero] THEN {} ELSE {"identity_frame"})
     \cup (IF ev.pt = XPoint(A, ev.p) /\ ev.vec = MApp(A.m, ev.p) THEN {} ELSE {"transform_point"})
     \cup (IF ev.mat = MMul(A.m, B.m) THEN {} ELSE {"transform_matrix"})
     \cup (IF XOf(ev.cat) = XConcat(B, A) THEN {} ELSE {"concatenation"})
     \cup (IF XOf(ev.inv) = XInverse(A) THEN {} ELSE {"inverse_frame"})
     \cup (IF XOf(ev.ft) = XFromTo(A, B) THEN {} ELSE {"frame_from_to"})
     \cup (IF ev.same THEN {} ELSE {"arguments_unchanged"})
StringFails(ev) ==
  IF ev.kind = "q" THEN (IF Len(ev.r) = 4 /\ SameDir(ev.r, ev.q, 1) THEN {} ELSE {"rotation_from_string"})
  ELSE IF ev.kind = "num" THEN (IF ev.r = ev.v THEN {} ELSE {"numbers_from_string"})
  ELSE IF ev.kind = "rand" THEN (IF Len(ev.r) = 3 /\ \A i \in 1..3 : ev.r[i] >= ev.v[1] /\ ev.r[i] <= ev.v[2] THEN {} ELSE {"random_vector_range"})
  ELSE {"unknown_event"}
RStep(st, ev) ==
  [ st |-> st, fails |->
     IF ev.op = "refuse" THEN (IF ev.out = "ok" THEN {"bad_strings_refused"} ELSE {})
     ELSE IF ev.out # "ok" THEN {"outcome"}
     ELSE IF ev.op = "algebra" THEN AlgebraFails(ev)
     ELSE IF ev.op = "convert" THEN ConvertFails(ev)
     ELSE IF ev.op = "ru" THEN RuFails(ev)
     ELSE IF ev.op = "slerp" THEN SlerpFails(ev)
     ELSE IF ev.op = "ortho" THEN OrthoFails(ev)
     ELSE IF ev.op = "coords" THEN CoordFails(ev)
     ELSE IF ev.op = "string" THEN StringFails(ev)
     ELSE IF ev.op = "angle" THEN
            (IF Abs(ev.rad * 18000 - ev.deg * 1286796) <= 18000 /\ ev.back = 4 * ev.deg THEN {} ELSE {"degrees_and_radians"})
     ELSE {"unknown_event"} ]
=============================================================================
