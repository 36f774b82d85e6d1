---------------------------- MODULE SkeletonTrace ---------------------------
(* The whole skeleton and its chains are compared after every call.                                     *)
EXTENDS Skeleton, TraceRun
RStart(ev) == [ S |-> EmptySkel, C |-> << >> ]
SameSkel(S, bs) ==
  (IF Len(bs) = Len(S) THEN {} ELSE {"number_of_bones"})
  \cup (IF Len(bs) # Len(S) THEN {} ELSE
     (IF \A b \in 1..Len(S) : bs[b].idx = b - 1 /\ bs[b].parent = S[b].parent /\ bs[b].children = S[b].children
                              /\ bs[b].root = (S[b].parent = -1) /\ bs[b].child = (S[b].parent # -1) /\ bs[b].leaf = (S[b].children = << >>) THEN {} ELSE {"tree"})
     \cup (IF \A b \in 1..Len(S) : bs[b].code = S[b].code /\ bs[b].t = S[b].t THEN {} ELSE {"bone_data"})
     \cup (IF \A b \in 1..Len(S) : bs[b].ang = S[b].ang THEN {} ELSE {"joint_angles"})
     \cup (IF \A b \in 1..Len(S) : bs[b].m = S[b].pose.m /\ bs[b].r = S[b].pose.r THEN {} ELSE {"pose"}))
SameChains(C, cs) == IF /\ Len(cs) = Len(C) /\ \A k \in 1..Len(C) : cs[k].bones = C[k].bones /\ cs[k].goal = C[k].goal /\ cs[k].tool = C[k].tool /\ cs[k].own THEN {} ELSE {"chains"}
Go(st, S, C, ev, more) == [ st |-> [S |-> S, C |-> C], fails |-> more \cup SameSkel(S, ev.bones) \cup SameChains(C, ev.chains) ]
Refused(st, ev, kind) == Go(st, st.S, st.C, ev, IF ev.out = "RuntimeError" THEN {} ELSE {kind})
OkElse(ev) == IF ev.out = "ok" THEN {} ELSE {"outcome"}
ReadFails(st, ev) ==
  (IF ev.all = Angles(st.S) /\ ev.each = Angles(st.S) THEN {} ELSE {"joint_angles"})
  \cup (IF ev.eff = [k \in 1..Len(st.C) |-> EffOf(st.S, st.C[k])] THEN {} ELSE {"end_effector"})
  \cup (IF ev.has = << FALSE, TRUE, TRUE, FALSE >> /\ ev.root THEN {} ELSE {"has_bone"})
(* d degrees: pi = 355/113 up to 3e-7 *)
DegFails(ev) == IF Abs(ev.r * 20340 - 4096 * 355 * ev.d) <= 20340 + 2000 /\ Abs(ev.b * 355 - 20340 * ev.d) <= 355 + 40 THEN {} ELSE {"degrees"}
DerFails(st, ev) ==
  LET A == TLCEval(Angles(st.S))  C == st.C  J2 == Jacx2(st.S, A, C)  n == Len(A)
  IN (IF Len(ev.J) = Len(C) /\ \A k \in 1..Len(C) : Len(ev.J[k]) = n /\ \A i \in 1..n : VScale(2, ev.J[k][i]) = J2[k][i] THEN {} ELSE {"jacobian"})
     \cup (IF ev.f = Objx2(st.S, A, C) THEN {} ELSE {"objective"})
     \cup (LET G == Gradx2(st.S, A, C) IN IF Len(ev.g) = n /\ \A i \in 1..n : 2 * ev.g[i] = G[i] THEN {} ELSE {"gradient"})
     \cup (LET H == Hessx4(st.S, A, C) IN IF Len(ev.H) = n /\ \A i, j \in 1..n : ev.H[i][j] # OFF /\ 4 * ev.H[i][j] = H[i][j] THEN {} ELSE {"second_derivatives"})
(* finite differences with a step of 1e-4, in 1/2048 *)
FDFails(st, ev) ==
  LET A == TLCEval(Angles(st.S))  C == st.C  n == Len(A)  G == Gradx2(st.S, A, C)
  IN (IF Len(ev.g) = n /\ \A i \in 1..n : ev.g[i] # OFF /\ Abs(2 * ev.g[i] - 2048 * G[i]) <= 8 THEN {} ELSE {"difference_gradient"})
     \cup (IF ev.h = << >> THEN {} ELSE LET H == Hessx4(st.S, A, C) IN
             IF \A i, j \in 1..n : ev.h[i][j] # OFF /\ Abs(4 * ev.h[i][j] - 2048 * H[i][j]) <= 64 THEN {} ELSE {"difference_second_derivatives"})
RStep(st, ev) ==
  LET S == st.S  C == st.C IN
  CASE ev.op = "root" -> IF CanRoot(S, ev.code) THEN Go(st, AddRoot(S, ev.code, ev.ang, ev.t), C, ev, IF ev.out = "ok" /\ ev.ret = 0 THEN {} ELSE {"outcome"}) ELSE Refused(st, ev, "second_root_or_bad_code_refused")
    [] ev.op = "add" -> IF CanAdd(S, ev.p, ev.code) THEN Go(st, AddBone(S, ev.p, ev.code, ev.ang, ev.t), C, ev, IF ev.out = "ok" /\ ev.ret = Len(S) THEN {} ELSE {"outcome"}) ELSE Refused(st, ev, "bad_parent_or_code_refused")
    [] ev.op = "turn" -> Go(st, WithAngles(S, [Angles(S) EXCEPT ![ev.i] = ev.v]), C, ev, OkElse(ev))
    [] ev.op = "angles" -> Go(st, WithAngles(S, ev.a), C, ev, OkElse(ev))
    [] ev.op = "update" -> Go(st, Posed(S), C, ev, OkElse(ev))
    [] ev.op = "chains" -> Go(st, S, ChainsOf(S), ev, OkElse(ev))
    [] ev.op = "goal" -> Go(st, S, [C EXCEPT ![ev.k] = [@ EXCEPT !.goal = ev.goal, !.tool = ev.tool]], ev, {})
    [] ev.op = "read" -> Go(st, S, C, ev, IF ev.out = "ok" THEN ReadFails(st, ev) ELSE {"outcome"})
    [] ev.op = "degrees" -> Go(st, S, C, ev, DegFails(ev))
    [] ev.op = "derivatives" -> Go(st, S, C, ev, IF ev.out # "ok" THEN {"outcome"} ELSE IF Fresh(S) THEN DerFails(st, ev) ELSE {})
    [] ev.op = "fd" -> Go(st, Posed(S), C, ev, IF ev.out = "ok" THEN FDFails(st, ev) ELSE {"outcome"})
    [] OTHER -> [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
