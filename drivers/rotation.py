"""Quaternions, matrices, Euler angles, coordinate systems and their strings."""
import math
import random
from vlib import *
from worlds import cube_rotations
a_ = args()
import numpy as np
import rainbow.math.angle as ANGLE
import rainbow.math.coordsys as CS
import rainbow.math.euler as EU
import rainbow.math.matrix3 as M3
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3

rec = Recorder(a_.out, chunk=150)
rng = random.Random(a_.seed * 1000003 + a_.part)
np.random.seed(a_.seed * 17 + a_.part)
N = 60 if a_.tier == "quick" else 1200
K = 4096
CUBES = list(cube_rotations())


def rq(m, nonzero=True):
    while True:
        q = [rng.randint(-m, m) for _ in range(4)]
        if rng.random() < 0.3:
            for i in rng.sample(range(4), rng.randint(1, 3)):
                q[i] = 0
        if any(q) or not nonzero:
            return q


def rv(m):
    while True:
        v = [rng.randint(-m, m) for _ in range(3)]
        if rng.random() < 0.3:
            v[rng.randrange(3)] = 0
        if any(v):
            return v


def imul(p, q):
    return [p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3], p[0]*q[1]+p[1]*q[0]+p[2]*q[3]-p[3]*q[2],
            p[0]*q[2]-p[1]*q[3]+p[2]*q[0]+p[3]*q[1], p[0]*q[3]+p[1]*q[2]-p[2]*q[1]+p[3]*q[0]]


F = lambda x: np.array(x, dtype=float)
flat = lambda m, s=1: fxv(np.asarray(m).ravel(), s)
rflat = lambda m: frv(np.asarray(m).ravel(), K)


def unitf(q):
    return F(q) / math.sqrt(sum(c * c for c in q))


def convert(q):
    u = unitf(q)
    m = Q.to_matrix(F(q)) if rng.random() < 0.5 else Q.to_matrix(u)
    back = Q.from_matrix(m)
    ang, ax = Q.to_angle_axis(u)
    d = dict(unit=frv(Q.unit(F(q)), K), mat=rflat(m), back=frv(back, K), angle=fr(ang, K), axis=frv(ax, K), again=[0] * 4, about=[], angles=[])
    if any(q[1:]):
        d["again"] = frv(Q.Ru(ang, ax), K)
        for s in (1, -1):
            axis = s * F(q[1:]) * rng.choice([1, 0.5])
            th = Q.to_angle(u, axis)
            d["angles"].append(fr(th, K))
            d["about"].append(rflat(M3.Ru(th, axis)))
    es = [EU.make_euler_xyz_from_quaternion(u), EU.make_euler_xyz_from_matrix(m)]
    d["abc"] = [frv([e.alpha, e.beta, e.gamma], K) for e in es]
    d["euler"] = [rflat(M3.Rz(e.gamma) @ M3.Ry(e.beta) @ M3.Rx(e.alpha)) for e in es]
    return d


def emit_convert(q):
    out, r = call(convert, q)
    rec.emit(dict(op="convert", out=out, q=q, **(r if out == "ok" else {})))


def num(x):
    """A decimal string of x/1000 in one of the usual spellings."""
    return rng.choice([repr(x / 1000), "%.3f" % (x / 1000), "%.3f" % (x / 1000)])


for it in range(N):
    rec.begin()
    qa, qb, v, t = rq(3), rq(3), rv(3), rng.randint(0, 4)

    def algebra():
        A, B, V = F(qa), F(qb), F(v)
        d = dict(prod=fxv(Q.prod(A, B)), conj=fxv(Q.conjugate(A)), rot=fxv(Q.rotate(A, V)), left=[fxv(x) for x in Q.prod_array(A, np.array([B, [0.0, *V]]))],
                 right=[fxv(x) for x in Q.prod_array(np.array([B, [0.0, *V]]), A)], rots=[fxv(x) for x in Q.rotate_array(A, np.array([V, B[1:]]))],
                 vec=fxv(Q.from_vector3(V)), hat=fxv(Q.hat(A)), lerp=fxv(Q.lerp(A, B, t / 4), 4), star=fxv(M3.star(V) @ A[1:]),
                 rows=flat(M3.make_from_rows(V, A[1:], B[1:])), cols=flat(M3.make_from_cols(V, A[1:], B[1:])))
        d["zero"] = fxv(Q.unit(np.zeros(4)))
        d["same"] = bool((A == F(qa)).all() and (B == F(qb)).all() and (V == F(v)).all())
        return d
    out, r = call(algebra)
    rec.emit(dict(op="algebra", out=out, a=qa, b=qb, v=v, t=t, **(r if out == "ok" else {})))
    emit_convert(rq(3))
    if it % 4 == 0:
        emit_convert(rng.choice([[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 1, 1], [-1, 1, -1, 1], [0, 1, -1, 0], [0, 1, 2, 0]]))
    # a quarter turn about y between arbitrary turns about z and x (a vertical rotated x axis)
    z, x = [rng.randint(1, 4), 0, 0, rng.randint(-4, 4)], [rng.randint(1, 4), rng.randint(-4, 4), 0, 0]
    emit_convert(imul(imul(z, [1, 0, rng.choice([1, -1]), 0]), x))
    emit_convert(imul(imul(z, [rng.randint(4, 5), 0, rng.choice([1, -1]) * rng.randint(4, 5), 0]), [1, 0, 0, 0]))
    axis, n, m = rv(3), rng.randint(-4, 4), rng.randint(-4, 4)
    if n == 0 and m == 0:
        n = 1
    L = math.sqrt(sum(c * c for c in axis))
    theta = 2 * math.atan2(m * L, n)

    def ru(axis, theta):
        qs, ms = [frv(Q.Ru(theta, F(axis)), K)], [rflat(M3.Ru(theta, F(axis)))]
        ms.append(rflat(Q.to_matrix(Q.Ru(theta, F(axis)))))
        if sorted(axis) == [0, 0, 1]:
            k = axis.index(1)
            qs.append(frv([Q.Rx, Q.Ry, Q.Rz][k](theta), K))
            ms.append(rflat([M3.Rx, M3.Ry, M3.Rz][k](theta)))
        return dict(qs=qs, ms=ms)
    out, r = call(ru, axis, theta)
    rec.emit(dict(op="ru", out=out, axis=axis, n=n, m=m, **(r if out == "ok" else {})))
    unit = [0, 0, 0]
    unit[rng.randrange(3)] = 1
    out, r = call(ru, unit, 2 * math.atan2(m, n))
    rec.emit(dict(op="ru", out=out, axis=unit, n=n, m=m, **(r if out == "ok" else {})))
    # interpolation between rotations
    sa = rq(3)
    mode = it % 6
    if mode == 0:
        sb = [-c for c in sa]
    elif mode == 1:
        sb = list(sa)
    else:
        sb = [c * rng.choice([1, 1, -1]) for c in rng.sample(sa, 4)] if mode > 2 else [c * rng.choice([1, -1, -1]) for c in sa]

    def slerp():
        A, B = unitf(sa), unitf(sb)
        return dict(ua=frv(A, K), ub=frv(B, K), s=[frv(Q.slerp(A, B, t), K) for t in (0.0, 0.25, 0.5, 0.75, 1.0, -0.5, 1.75)])
    out, r = call(slerp)
    rec.emit(dict(op="slerp", out=out, a=sa, b=sb, **(r if out == "ok" else {})))
    # orthonormal rows
    m3 = [rv(3), rv(3), rv(3)]
    while not np.cross(m3[0], m3[1]).any():
        m3[1] = rv(3)
    A = F(m3)
    out, r = call(M3.ortonormalize, A)
    rec.emit(dict(op="ortho", out=out, a=[c for row in m3 for c in row], r=rflat(r) if out == "ok" else [], same=bool((A == F(m3)).all())))
    # coordinate systems
    (ma, ca), (mb, cb) = rng.choice(CUBES), rng.choice(CUBES)
    ra, rb, p = rv(5), rv(5), rv(5)

    def frame(X):
        return dict(m=flat(Q.to_matrix(X.q)), r=fxv(X.r))

    def coords():
        A, B = CS.make(F(ra), F(ca)), CS.make(F(rb), F(cb))
        P = F(p)
        d = dict(ident=frame(CS.CoordSys()), pt=fxv(CS.xform_point(A, P)), vec=fxv(CS.xform_vector(A, P)), mat=flat(CS.xform_matrix(A, Q.to_matrix(B.q))),
                 cat=frame(CS.concat(B, A)), inv=frame(CS.inverse(A)), ft=frame(CS.make_coordsys_from_to(A, B)))
        d["same"] = frame(A) == dict(m=list(ma), r=ra) and frame(B) == dict(m=list(mb), r=rb) and bool((P == F(p)).all())
        return d
    out, r = call(coords)
    rec.emit(dict(op="coords", out=out, A=dict(m=list(ma), r=ra), B=dict(m=list(mb), r=rb), p=p, **(r if out == "ok" else {})))
    # strings
    k, deg = rng.randrange(3), rng.choice([0, 90, 180, 270, -90, 360, -180])
    h = {0: (1, 0), 90: (1, 1), 180: (0, 1), 270: (-1, 1), -90: (1, -1), 360: (-1, 0), -180: (0, -1)}[deg]
    q = [h[0], 0, 0, 0]
    q[k + 1] = h[1]
    s = rng.choice(["r%s:%s", "R%s:%s", "r%s: %s"]) % ("xyz"[k], rng.choice([str(deg), "%.1f" % deg, "%.2f" % deg]))
    out, r = call(Q.from_string, s)
    rec.emit(dict(op="string", kind="q", out=out, text=s, q=q, r=frv(r, K) if out == "ok" else []))
    ax = rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, -1]])
    s = "ru:%d:[%s]" % (deg, rng.choice([",", ", "]).join(rng.choice(["%d", "%.1f"]) % (3 * c) for c in ax))
    out, r = call(Q.from_string, s)
    rec.emit(dict(op="string", kind="q", out=out, text=s, q=[h[0]] + [h[1] * c for c in ax], r=frv(r, K) if out == "ok" else []))
    vals = [rng.choice([rng.randint(-3000, 3000), 1000 * rng.randint(-3, 3), rng.randint(-60, 60), 10 * rng.randint(-9, 9)]) for _ in range(4)]
    s = "[" + rng.choice([",", ", "]).join(num(x) for x in vals) + "]"
    out, r = call(Q.from_string, s)
    rec.emit(dict(op="string", kind="num", out=out, text=s, v=vals, r=fxv(r, 1000, 1e-4) if out == "ok" else []))
    s = "[" + ",".join(num(x) for x in vals[:3]) + "]"
    out, r = call(V3.from_string, s)
    rec.emit(dict(op="string", kind="num", out=out, text=s, v=vals[:3], r=fxv(r, 1000, 1e-4) if out == "ok" else []))
    w = rng.choice(["i", "J", "k", "ones", "Zero", "identity"])
    want = dict(i=[1, 0, 0], j=[0, 1, 0], k=[0, 0, 1], ones=[1, 1, 1], zero=[0, 0, 0], identity=[1, 0, 0, 0])[w.lower()]
    out, r = call(Q.from_string if w == "identity" else V3.from_string, w)
    rec.emit(dict(op="string", kind="num", out=out, text=w, v=want, r=fxv(r) if out == "ok" else []))
    lo = rng.randint(-2000, 2000)
    hi = lo + rng.randint(1, 2000)
    s = "rand:%s:%s" % (num(lo), num(hi))
    out, r = call(V3.from_string, s)
    rec.emit(dict(op="string", kind="rand", out=out, text=s, v=[lo, hi], r=frv(r, 1000) if out == "ok" else []))
    bad = rng.choice(["", "rx:", "rx:ninety", "rw:90", "[1,2", "[1,,2,3]", "ru:90", "ru:90:[1,2]", "[1,2,3]", "hello", "rx:90:", "1,2,3,4", "[1 2 3 4]", "rx:90 [1,2,3,4]"])
    rec.emit(dict(op="refuse", text=bad, out=call(Q.from_string, bad)[0]))
    bad = rng.choice(["", "[1,2]", "rand:1", "rand:a:b", "[1,2,x]", "identity", "two", "[1 2 3]", "rand:1:2:3", "l"])
    rec.emit(dict(op="refuse", text=bad, out=call(V3.from_string, bad)[0]))
    deg = rng.randint(-800, 800)
    out, r = call(lambda: (ANGLE.degrees_to_radians(deg / 4), ANGLE.radians_to_degrees(ANGLE.degrees_to_radians(float(deg)))))
    rec.emit(dict(op="angle", out=out, deg=deg, rad=fr(4 * r[0], K) if out == "ok" else 0, back=fx(4 * r[1]) if out == "ok" else 0))
rec.close()
