------------------------------ MODULE ProxOpMC ------------------------------
(* The optimality conditions used to judge the code do single out the closest point: for every small        *)
(* ellipsoid, every lattice point on its surface that satisfies them is at least as close as every other      *)
(* lattice point of the ellipsoid.                                                                         *)
EXTENDS ProxOp
CONSTANTS A, R
VARIABLES a, z, x
Init == a \in [1..3 -> 0..A] /\ z = << 0, 0, 0 >> /\ x = << 0, 0, 0 >>
Q == (-R)..R
Next == /\ z = << 0, 0, 0 >> /\ z' \in [1..3 -> Q] /\ UNCHANGED a
        /\ \E y \in [1..3 -> (-A)..A] : Inside(a, y, 1)
              /\ (IF InsideFlat(a, z', 1) THEN \A i \in Nz(a) : y[i] = z'[i]
                  ELSE InsideFlat(a, y, 1) /\ ~InsideFlat(a, << 1025 * y[1], 1025 * y[2], 1025 * y[3] >>, 1024)
                       /\ Normal(a, VSub(z', y), y, 0) /\ (\A i \in Nz(a) : (z'[i] - y[i]) * y[i] >= 0) /\ (\E i \in Nz(a) : (z'[i] - y[i]) * y[i] > 0))
              /\ x' = y
Spec == Init /\ [][Next]_<< a, z, x >>
D2(p, q) == VDot(VSub(p, q), VSub(p, q))
Closest == \A y \in [1..3 -> (-A)..A] : Inside(a, y, 1) => D2(z, x) <= D2(z, y) \/ z = << 0, 0, 0 >>
=============================================================================
