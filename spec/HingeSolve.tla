----------------------------- MODULE HingeSolve -----------------------------
(* Hinge joints: hinge = [A, B, pA, pB, nA, nB]: parent and child, the joint's anchor and axis carried  *)
(* by each of them, in the world (S = 1/1024).                                                        *)
EXTENDS ContactSolve
AnchorVel(st, h, U) == VSub(PointVel(st.bodies[h.A], U[h.A].v, U[h.A].w, h.pA), PointVel(st.bodies[h.B], U[h.B].v, U[h.B].w, h.pB))
Perp(n, x) == VSub(x, VRDiv(VScale(Dot(n, x), n), S))       \* component across the axis
SpinAcross(h, U) == Perp(h.nA, VSub(U[h.A].w, U[h.B].w))
(* what pre-stabilization asks for: remove a fraction of the drift in this step *)
Pull(st, x) == IF st.pre THEN VRDiv(VScale(st.idt * st.red4, x), 4) ELSE VZero
Drift(h) == VSub(h.pA, h.pB)
Tilt(h) == Cross(h.nB, h.nA)
=============================================================================
