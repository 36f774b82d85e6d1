---------------------------- MODULE SurfMeshMC ------------------------------
(* The combinatorial constructions of the mesh generators for every small size, over index space, and  *)
(* renumbering/reordering of a mesh: the laws that the traces are checked for.                          *)
EXTENDS SurfMesh
CONSTANTS MaxN, MaxJ
VARIABLES kind, n, j, mesh, seen
vars == << kind, n, j, mesh, seen >>
Cos4(k) == << 1, 0, -1, 0 >>[(k % 4) + 1]
Sin4(k) == << 0, 1, 0, -1 >>[(k % 4) + 1]
(* a sweep of n profile points in J slices: rings of J vertices, then the top and the bottom pole *)
SweepT(N, J) ==
  LET H == N - 2  top == H * J + 1  bot == H * J + 2
      v(s, h) == (s % J) * H + h + 1
  IN [k \in 1..J |-> << bot, v(k, 0), v(k - 1, 0) >>]
     \o [q \in 1..(2 * J * (H - 1)) |-> LET h == (q - 1) \div (2 * J)  r == ((q - 1) \div 2) % J
            IN IF q % 2 = 1 THEN << v(r, h), v(r + 1, h), v(r + 1, h + 1) >> ELSE << v(r, h), v(r + 1, h + 1), v(r, h + 1) >>]
     \o [k \in 1..J |-> << top, v(k - 1, H - 1), v(k, H - 1) >>]
TorusT(I, K) == LET v(i, k) == (k % K) * I + (i % I) + 1
                IN [q \in 1..(2 * I * K) |-> LET i == ((q - 1) \div 2) % I  k == (q - 1) \div (2 * I)
                      IN IF q % 2 = 1 THEN << v(i, k), v(i, k + 1), v(i + 1, k + 1) >> ELSE << v(i, k), v(i + 1, k + 1), v(i + 1, k) >>]
AnyV(c) == [i \in 1..c |-> << i, (i * i) % 7, (3 * i) % 5 >>]
(* four slices have integer coordinates: rotation about y *)
SweepV4(N) == LET H == N - 2 IN [q \in 1..(4 * H) |-> LET s == (q - 1) \div H  h == ((q - 1) % H) IN << (h + 1) * Cos4(s), h, -((h + 1) * Sin4(s)) >>]
                               \o << << 0, H - 1, 0 >>, << 0, 0, 0 >> >>
Init == /\ kind \in {"sweep", "torus", "sweep4"}
        /\ n \in 3..MaxN /\ j \in (IF kind = "sweep4" THEN {4} ELSE 3..MaxJ) /\ seen = <<>>
        /\ mesh = CASE kind = "sweep" -> [V |-> AnyV((n - 2) * j + 2), T |-> SweepT(n, j)]
                    [] kind = "sweep4" -> [V |-> SweepV4(n), T |-> SweepT(n, 4)]
                    [] kind = "torus" -> [V |-> AnyV(n * j), T |-> TorusT(n, j)]
Swap(s, a, b) == [i \in 1..Len(s) |-> IF i = a THEN s[b] ELSE IF i = b THEN s[a] ELSE s[i]]
Renumber(m, a, b) == LET f(i) == IF i = a THEN b ELSE IF i = b THEN a ELSE i
                     IN [V |-> Swap(m.V, a, b), T |-> [k \in 1..Len(m.T) |-> [q \in 1..3 |-> f(m.T[k][q])]]]
Next == /\ seen = <<>> /\ seen' = << mesh >> /\ UNCHANGED << kind, n, j >>
        /\ \E a \in {1, 3}, b \in {2, Len(mesh.V)} :
             mesh' = [Renumber(mesh, a, b) EXCEPT !.T = Swap(@, 1, Len(mesh.T))]
Spec == Init /\ [][Next]_vars
IsClosed == ClosedSurface(mesh, IF kind = "torus" THEN 0 ELSE 2)
ShapeKept == seen # <<>> => Shape(mesh) = Shape(seen[1]) /\ Vol6(mesh) = Vol6(seen[1])
(* frustum formula, four slices: 6 Vol = 4 sin(90) * sum dy (r^2 + r r' + r'^2) *)
Outward == kind = "sweep4" => Vol6(mesh) = 4 * SumSeq([i \in 1..(n - 3) |-> i * i + i * (i + 1) + (i + 1) * (i + 1)])
=============================================================================
