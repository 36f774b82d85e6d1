-------------------------- MODULE SelfCollideTrace --------------------------
EXTENDS SelfCollide, TraceRun
FacesOf(t) == { {t[1], t[2], t[3]}, {t[1], t[2], t[4]}, {t[1], t[3], t[4]}, {t[2], t[3], t[4]} }
(* the surface of a mesh: faces that belong to one tetrahedron only *)
Surface(T) == LET FS == TLCEval([i \in 1..Len(T) |-> FacesOf(T[i])])
              IN { f \in UNION { FS[i] : i \in 1..Len(T) } : Cardinality({ i \in 1..Len(T) : f \in FS[i] }) = 1 }
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o SetSeq(S \ {x})
RStart(ev) == [ gap |-> ev.gap, surf |-> TLCEval([b \in 1..Len(ev.mesh) |-> SetSeq({ SetSeq(f) : f \in Surface(ev.mesh[b]) })]) ]
NearTri(p, t) == \A i \in 1..3 : p[i] >= TLo(t, i) * 1000 - 40 /\ p[i] <= THi(t, i) * 1000 + 40
RStep(st, ev) ==
  IF ev.op = "detect" THEN
    LET NB == Len(ev.x)
        tris == TLCEval([b \in 1..NB |-> [k \in 1..Len(st.surf[b]) |-> [i \in 1..3 |-> ev.x[b][st.surf[b][k][i]]]]])
        own == { q \in UNION { { << b, i, j >> : i \in 1..Len(tris[b]), j \in 1..Len(tris[b]) } : b \in 1..NB } : q[2] < q[3] /\ Gap(tris[q[1]][q[2]], tris[q[1]][q[3]]) <= 0 }
        may == { q \in own : May(tris[q[1]][q[2]], tris[q[1]][q[3]]) }
        must == { q \in may : Must(tris[q[1]][q[2]], tris[q[1]][q[3]]) }
        other == IF NB = 1 THEN 0 ELSE
          Cardinality({ q \in UNION { { << b, c, i, j >> : i \in 1..Len(tris[b]), j \in 1..Len(tris[c]) } : b \in 1..NB, c \in 1..NB } :
                         q[1] < q[2] /\ Gap(tris[q[1]][q[3]], tris[q[2]][q[4]]) <= st.gap })
    IN [ st |-> st,
         fails |-> (IF ev.out = "ok" THEN {} ELSE {"detection_outcome"})
           \cup (IF ev.out # "ok" \/ ev.n = -1 THEN {}
                 ELSE (IF ev.n >= other + Cardinality(must) THEN {} ELSE {"colliding_triangles_missed"})
                 \cup (IF ev.n <= other + Cardinality(may) THEN {} ELSE {"separated_triangles_reported"}))
           \* contact points of a body with itself lie on triangles that cross
           \cup (IF \A k \in 1..Len(ev.own) : \E q \in may : q[1] = ev.own[k].b /\ (NearTri(ev.own[k].p, tris[q[1]][q[2]]) \/ NearTri(ev.own[k].p, tris[q[1]][q[3]]))
                 THEN {} ELSE {"self_contact_without_crossing"}) ]
  ELSE [ st |-> st, fails |-> {"unknown_event"} ]
=============================================================================
