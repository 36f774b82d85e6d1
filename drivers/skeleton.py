"""Histories of real skeletons: building, turning, posing, chains; derivatives of the objective."""
import math
import os
import random
from vlib import *
a_ = args()
import numpy as np
import rainbow.simulators.inverse_kinematics.api as IK
import rainbow.math.angle as AN

rec = Recorder(a_.out, chunk=40 if os.environ.get("FOCUS") == "derivatives" else 120)
rng = random.Random(a_.seed * 1000003 + a_.part)
c = rng.choice
DER = os.environ.get("FOCUS") == "derivatives"
N = {"quick": 50 if DER else 80, "thorough": 800}[a_.tier]
CODES = ["XZX", "XYX", "YXY", "YZY", "ZYZ", "ZXZ", "XZY", "XYZ", "YXZ", "YZX", "ZYX", "ZXY"]
F = lambda v: np.array(v, dtype=float)
q1 = lambda k: k * math.pi / 2
ivec = lambda m=2: [rng.randint(-m, m) for _ in range(3)]


def mat(q):
    s, x, y, z = (float(v) for v in q)
    return [s*s+x*x-y*y-z*z, 2*(x*y-s*z), 2*(x*z+s*y), 2*(x*y+s*z), s*s-x*x+y*y-z*z, 2*(y*z-s*x), 2*(x*z-s*y), 2*(y*z+s*x), s*s-x*x-y*y+z*z]


def proj(S):
    return [dict(idx=int(b.idx), parent=int(b.parent), children=[int(k) for k in b.children], code=str(b.euler_code), ang=[fx(v / (math.pi / 2), 1) for v in (b.alpha, b.beta, b.gamma)],
                 t=fxv(b.t), m=fxv(mat(b.q_wcs)), r=fxv(b.t_wcs), root=bool(b.is_root()), leaf=bool(b.is_end_effector()), child=bool(b.has_parent())) for b in S.bones]


def cproj(C):
    return [dict(bones=[int(k) for k in x.bones], goal=fxv(x.goal), tool=fxv(x.tool), own=x.skeleton is S) for x in C]


def emit(ev):
    ev["bones"], ev["chains"] = proj(S), cproj(C)
    rec.emit(ev)


for it in range(N):
    S, C = IK.create_skeleton(), []
    rec.begin()
    codes = [c(CODES)] if rng.random() < .3 else CODES
    most = rng.randint(2, 4) if DER else rng.randint(1, 7)

    def grow():
        code = c(codes) if rng.random() < .92 else c(["XXZ", "ZZZ", "", "XY", "xyz", "XYZX", "ABC"])
        ang, t = [rng.randint(-4, 4) for _ in range(3)], ivec()
        kw = dict(euler_code=code) if code != "ZYZ" or rng.random() < .5 else {}
        if not S.bones or rng.random() < .06:
            out, b = call(IK.create_root, S, *(q1(k) for k in ang), *map(float, t), **kw)
            emit(dict(op="root", code=code, ang=ang, t=t, out=out, ret=int(b.idx) if out == "ok" else -1))
        else:
            p = rng.randrange(len(S.bones)) if rng.random() < .92 else c([-1, len(S.bones), len(S.bones) + 3, -2])
            out, b = call(IK.add_bone, S, p, *(q1(k) for k in ang), *map(float, t), **kw)
            emit(dict(op="add", p=p, code=code, ang=ang, t=t, out=out, ret=int(b.idx) if out == "ok" else -1))

    for _ in range(rng.randint(2, 9) if not DER else 2 * most):
        if len(S.bones) < most:
            grow()
    if not S.bones:
        emit(dict(op="root", code="ZYZ", ang=[0, 0, 0], t=[1, 0, 0], out=call(IK.create_root, S, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0)[0], ret=0))
    for _ in range(rng.randint(4, 14) if not DER else 7):
        n = 3 * len(S.bones)
        k = rng.randrange(10)
        if k == 0 and len(S.bones) < most:
            grow()
        elif k in (1, 2):
            i, v = rng.randrange(n), rng.randint(-4, 4)
            out, _ = call(IK.set_angle, i, q1(v), S)
            emit(dict(op="turn", i=i + 1, v=v, out=out))
        elif k == 3:
            A = [rng.randint(-4, 4) for _ in range(n)]
            out, _ = call(IK.set_joint_angles, S, F([q1(v) for v in A]) if rng.random() < .5 else [q1(v) for v in A])
            emit(dict(op="angles", a=A, out=out))
        elif k in (4, 5):
            out, _ = call(IK.update_skeleton, S)
            emit(dict(op="update", out=out))
        elif k == 6:
            out, r = call(IK.make_chains, S)
            if out == "ok":
                C = r
            emit(dict(op="chains", out=out))
        elif k == 7 and C:
            x = rng.randrange(len(C))
            C[x].goal, C[x].tool = F(ivec(4)), F(ivec(1))
            emit(dict(op="goal", k=x + 1, goal=fxv(C[x].goal), tool=fxv(C[x].tool), out="ok"))
        elif k == 8:
            out, r = call(lambda: (IK.get_joint_angles(S), [IK.get_angle(i, S) for i in range(n)], [IK.get_end_effector(x, S) for x in C], [bool(S.has_bone(i)) for i in (-1, 0, len(S.bones) - 1, len(S.bones))], bool(S.has_root())))
            ok = out == "ok"
            emit(dict(op="read", out=out, all=[fx(v / (math.pi / 2), 1) for v in r[0]] if ok else [], each=[fx(v / (math.pi / 2), 1) for v in r[1]] if ok else [], eff=[fxv(e) for e in r[2]] if ok else [], has=r[3] if ok else [], root=r[4] if ok else False))
        elif k == 9:
            d = rng.randint(-720, 720)
            emit(dict(op="degrees", d=d, r=fr(AN.degrees_to_radians(d), 4096), b=fr(AN.radians_to_degrees(d / 64.0), 64), out="ok"))
    if DER:
        out, C2 = call(IK.make_chains, S)
        if out == "ok":
            C = C2
        emit(dict(op="chains", out=out))
        for x in range(len(C)):
            C[x].goal, C[x].tool = F(ivec(3)), F(ivec(1))
            emit(dict(op="goal", k=x + 1, goal=fxv(C[x].goal), tool=fxv(C[x].tool), out="ok"))
        fd = rng.random() < .3
        if not fd or rng.random() < .5:
            out, _ = call(IK.update_skeleton, S)
            emit(dict(op="update", out=out))
        if fd:
            h = 1e-4
            out, r = call(lambda: (IK.compute_finite_difference_gradient(C, S, h), IK.compute_finite_difference_hessian(C, S, h) if len(S.bones) < 4 else None))
            emit(dict(op="fd", out=out, g=frv(r[0], 2048) if out == "ok" else [], h=[frv(x, 2048) for x in r[1]] if out == "ok" and r[1] is not None else []))

        def der():
            J = IK.compute_jacobian(C, S)
            return J, IK.compute_objective(C, S), IK.compute_gradient(C, S, J), IK.compute_hessian(C, S, J.copy())
        out, r = call(der)
        ok = out == "ok"
        emit(dict(op="derivatives", out=out, J=[[fxv(r[0][3*k:3*k + 3, i]) for i in range(r[0].shape[1])] for k in range(len(C))] if ok else [],
                  f=fx(2 * r[1], 1) if ok else OFF, g=fxv(r[2]) if ok else [], H=[fxv(x) for x in r[3]] if ok else []))
rec.close()
