"""Polynomials, point clouds and vectors."""
import math
import random
from vlib import *
a_ = args()
import numpy as np
import rainbow.math.functions as FU
import rainbow.math.polynomial as PL
import rainbow.math.vector3 as V3

rec = Recorder(a_.out, chunk=150)
rng = random.Random(a_.seed * 1000003 + a_.part)
N = 50 if a_.tier == "quick" else 1000
F = lambda x: np.array(x, dtype=float)


def terms(P, scale=4):
    return [dict(c=fx(c, scale) if scale == 4 else fr(c, scale), i=int(w[0]), j=int(w[1])) for c, w in zip(P.coefficients, P.powers)]


def words(s):
    return (["-"] + s[1:].split()) if s.startswith("-") and s[1:2] != " " else s.split()


def monos(n):
    return [(p - j, j) for p in range(n + 1) for j in range(p + 1)]


def ev4(cs, order, x, y):
    return sum(c * x ** i * y ** j for c, (i, j) in zip(cs, monos(order))) / 4


for it in range(N):
    rec.begin()
    order = rng.randint(0, 4)
    cs = [rng.choice([0, 0, 4, -4, rng.randint(-12, 12), 4 * rng.randint(-5, 5)]) for _ in monos(order)]
    if it % 10 == 0:
        cs = [0] * len(cs)

    def poly():
        P = PL.Poly(2, order)
        P.coefficients = F(cs) / 4
        before = terms(P)
        at = []
        for _ in range(4):
            x, y = rng.randint(-3, 3), rng.randint(-3, 3)
            X = F([x, y]) if rng.random() < 0.7 else np.array([x, y])
            at.append(dict(x=x, y=y, v=fx(PL.evaluate(P, X) if rng.random() < 0.5 else P(X), 4)))
        D = PL.derivative(P)
        DD = PL.derivative(D[0])
        return dict(p=before, at=at, text=words(PL.to_str(P) if rng.random() < 0.5 else str(P)), d=[terms(d) for d in D], dd=[terms(d) for d in DD], same=terms(P) == before)
    out, r = call(poly)
    rec.emit(dict(op="poly", out=out, order=order, **(r if out == "ok" else {})))
    # interpolation on a triangular lattice (unisolvent), sheared and shuffled
    order = rng.randint(1, 4)
    sh, ox, oy = rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-1, 1)
    pts = [(i + sh * j + ox, j + oy) for i, j in monos(order)]
    rng.shuffle(pts)
    extra = [(9, 9)] * rng.randint(0, 2)
    cols = rng.randint(1, 3)
    qs = [[rng.randint(-8, 8) for _ in monos(order)] for _ in range(cols)]
    vals = [[ev4(q, order, *p) for q in qs] for p in pts] + [[7.0] * cols for _ in extra]
    X, Y = F(pts + extra), F(vals)
    if cols == 1 and rng.random() < 0.7:
        Y = Y.ravel()
    out, r = call(PL.interpolate, order, X, Y)
    ok = out == "ok"
    rec.emit(dict(op="inter", out=out, order=order, q=[[dict(c=c, i=i, j=j) for c, (i, j) in zip(q, monos(order))] for q in qs], r=[terms(P, 256) for P in r] if ok else []))
    # point clouds
    n = rng.randint(3, 6)
    s = [rng.choice([1, 1, 3]) for _ in range(3)]
    pts = [[rng.randint(-w, w) for w in s] for _ in range(n)]
    if rng.random() < 0.4:   # along a slanted line
        u = rng.choice([[1, 1, 0], [1, -1, 2], [0, 2, 1], [2, 1, -1]])
        pts = [[c * k + rng.randint(0, 1) for c in u] for k in range(-2, n - 2)]

    def cloud():
        P = F(pts)
        mean, vals, vecs = FU.PCA(P)
        return dict(mean=frv(mean, 64), vals=frv(np.real(vals), 64), vecs=[frv(np.real(vecs[:, k]), 256) for k in range(3)], dir=frv(FU.direction_of_most_variance(P), 256))
    out, r = call(cloud)
    rec.emit(dict(op="cloud", out=out, pts=pts, **(r if out == "ok" else {})))
    # vectors
    for _ in range(4):
        m = rng.choice([1, 2, 5])
        a, b = [rng.randint(-m, m) for _ in range(3)], [rng.randint(-m, m) for _ in range(3)]
        if rng.random() < 0.3:
            b = list(a)
            b[rng.randrange(3)] += rng.choice([0, 1, -1])

        def vec():
            A, B = F(a), F(b)
            d = dict(less=bool(V3.less(A, B)), greater=bool(V3.greather(A, B)), le=bool(V3.less_than_equal(A, B)), ge=bool(V3.greather_than_equal(A, B)),
                     cross=fxv(V3.cross(A, B)), maxc=int(V3.max_abs_component(A)) + 1, frame=[[0] * 3] * 3, unit=[0] * 3)
            if any(a):
                d["frame"] = [frv(x, 1024) for x in V3.make_orthonormal_vectors(A)]
                d["unit"] = frv(V3.unit(A), 1024)
            d["same"] = bool((A == F(a)).all() and (B == F(b)).all())
            return d
        out, r = call(vec)
        rec.emit(dict(op="vec", out=out, a=a, b=b, **(r if out == "ok" else {})))
    ks = [rng.randint(-6, 6) for _ in range(3)] + [0]
    tiny = rng.choice([0.0, 1e-9, -1e-6])
    xs = F([k * math.pi / 2 if k else tiny for k in ks])
    out, r = call(FU.sinc, xs)
    rec.emit(dict(op="sinc", out=out, k=ks, v=frv(r, 4096) if out == "ok" else []))
    if it % 5 == 0:
        P = PL.Poly(2, 1)
        for f, g in ((PL.Poly, (2, -1)), (PL.Poly, (rng.choice([0, 4]), 2)), (PL.interpolate, (0, F([[0, 0]]), F([1]))), (PL.interpolate, (2, F([[0, 0], [1, 0], [0, 1]]), F([1, 2, 3]))),
                     (PL.interpolate, (1, F([[0, 0], [1, 0], [0, 1]]), F([1, 2]))), (PL.evaluate, (P, F([1, 2, 3]))), (P, (F([1]),))):
            rec.emit(dict(op="refuse", out=call(f, *g)[0]))
rec.close()
