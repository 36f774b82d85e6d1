---------------------------- MODULE ElasticTrace ----------------------------
EXTENDS Elastic, TraceRun
RStart(ev) == [k |-> ev.kind]
F(ok, name) == IF ok THEN {} ELSE {name}
RStep(st, ev) == [ st |-> st, fails |->
  IF ev.op = "stress" THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE LET A == ev.A  la == ev.la  mu == ev.mu IN
      (IF ev.model = "SVK" THEN F(ev.P = SvkP16(A, la, mu), "stress") \cup F(ev.W = SvkW128(A, la, mu), "energy")
       ELSE IF ev.model = "COR" THEN F(IsRot(ev.R) /\ PosDef(ev.U) /\ MMul(ev.R, ev.U) = A, "driver_polar")
            \cup F(ev.P = CorP2(ev.R, ev.U, la, mu), "stress") \cup F(ev.W = CorW8(ev.R, ev.U, la, mu), "energy")
       ELSE F(ev.den = SnhDen(A), "driver_den") \cup F(ev.P = SnhPD(A, la, mu \div 6), "stress")
            \cup F(Near(ev.W, SnhW12800(A, la, mu \div 6), 8), "energy"))
      \cup F(ev.frozen, "input_unchanged")
  ELSE IF ev.op = "polar" THEN
    IF MDet(ev.A) = 0 THEN F(ev.out = "ValueError", "singular_rejected")
    ELSE IF ev.out # "ok" THEN {"outcome"}
    ELSE F(ev.R = ev.wantR /\ MMul(ev.R, ev.S2) = ev.A, "rotation") \cup F(PosDef(ev.S2), "stretch")
  ELSE IF ev.op = "polar_array" THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE F(Len(ev.R) = Len(ev.A) /\ \A i \in 1..Len(ev.A) : ev.R[i] = ev.wantR[i] /\ MMul(ev.R[i], ev.S2[i]) = ev.A[i] /\ PosDef(ev.S2[i]), "polar_array")
  ELSE IF ev.op = "strain" THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE F(ev.C4 = RightCauchy4(ev.A), "right_cauchy") \cup F(ev.E8 = Green8(ev.A), "green") 
  ELSE IF ev.op = "cauchy" THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE F(\A i \in 1..Len(ev.A) : ev.sig[i] = MScale(2, MMul(ev.A[i], MMul(ev.S[i], MTr(ev.A[i])))), "cauchy_stress")
  ELSE IF ev.op = "lame" THEN
    F(ev.out = "ok" /\ ev.got = << ev.la, ev.mu >>, "lame")
  ELSE IF ev.op = "named" THEN
    F(ev.out = "ok" /\ ev.E > 0 /\ ev.nu >= 0 /\ ev.nu < 500 /\ ev.rho > 0 /\ ev.same, "named_material")
  ELSE IF ev.op = "gradient" THEN
    (* the deformation gradient of an affinely deformed mesh is that map in every element *)
    IF MDet(ev.A) <= 0 THEN F(ev.out = "RuntimeError", "inverted_element_rejected")
    ELSE IF ev.out # "ok" THEN {"outcome"}
    ELSE F(Len(ev.F) = Len(ev.T) /\ \A e \in 1..Len(ev.F) : ev.F[e] = ev.A, "deformation_gradient")
  ELSE IF ev.op = "faces" THEN
    IF ev.out # "ok" THEN {"outcome"}
    ELSE F(Len(ev.N) = Len(ev.T) /\ \A e \in 1..Len(ev.T) : LET t == ev.T[e]  V == ev.V
              (* six times the area vector over three: outward, opposite the node *)
              n(a, b, c) == VCross(VSub(V[b + 1], V[a + 1]), VSub(V[c + 1], V[a + 1]))
           IN ev.N[e] = << n(t[2], t[3], t[4]), n(t[1], t[4], t[3]), n(t[1], t[2], t[4]), n(t[1], t[3], t[2]) >>, "outward_face_vectors")
  ELSE {"unknown_event"} ]
=============================================================================
