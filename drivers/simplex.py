"""Barycentric coordinates, spheres and lattice points of simplices with integer corners."""
import random
from vlib import *
a = args()
import numpy as np
import rainbow.geometry.barycentric as BC
import rainbow.geometry.tetrahedron as TET

rec = Recorder(a.out, chunk=200)
rng = random.Random(a.seed * 1000003 + a.part)
N = 60 if a.tier == "quick" else 1200


def vol6(x):
    return round(np.linalg.det(np.array([np.subtract(x[k], x[0]) for k in (1, 2, 3)], dtype=float)))


for it in range(N):
    m = rng.choice([1, 2, 3])
    x = [[rng.randint(-m, m) for _ in range(3)] for _ in range(4)]
    while vol6(x) == 0:
        x = [[rng.randint(-m, m) for _ in range(3)] for _ in range(4)]
    X = [np.array(c, dtype=float) for c in x]
    rec.begin(x=x)
    for _ in range(5):
        mode = rng.randrange(4)
        if mode == 0:
            p = [rng.randint(-14, 14) for _ in range(3)]
        else:   # a corner, a point of an edge, of a face or inside
            w = [0] * 4
            for _ in range(4):
                w[rng.randrange(mode)] += 1
            k = rng.sample(range(4), 4)
            p = [sum(w[i] * x[k[i]][c] for i in range(4)) for c in range(3)]
        P = np.array(p) / 4
        out, r = call(lambda: (BC.compute_barycentric_edge(X[0], X[1], P), BC.compute_barycentric_triangle(X[0], X[1], X[2], P), BC.compute_barycentric_tetrahedron(*X, P)))
        ok = out == "ok"
        rec.emit(dict(op="weights", out=out, p=p, e=frv(r[0], 1024) if ok else [], t=frv(r[1], 1024) if ok else [], w=frv(r[2], 1024) if ok else []))
    out, r = call(BC.compute_barycentric_derivatives_tetrahedron, *X)
    rec.emit(dict(op="grad", out=out, g=[frv(g, 1024) for g in r] if out == "ok" else []))
    out, r = call(lambda: (TET.compute_signed_volume(*X), TET.is_left_orientation(*X)))
    rec.emit(dict(op="volume", out=out, v=fx(6 * r[0]) if out == "ok" else 0, left=bool(r[1]) if out == "ok" else False))
    out, r = call(TET.compute_circumscribed_sphere, *X)
    rec.emit(dict(op="circum", out=out, c=frv(r[0], 1024) if out == "ok" else [], r=fr(r[1], 64) if out == "ok" else 0))
    out, r = call(TET.compute_inscribed_sphere, *X)
    rec.emit(dict(op="inscribed", out=out, c=frv(r[0], 1024) if out == "ok" else [], r=fr(r[1], 1024) if out == "ok" else 0))
    for _ in range(4):
        k = rng.choice([2, 3, 4])
        w = [rng.choice([0, 0, rng.randint(0, 64), rng.randint(-4, 70), 64]) for _ in range(k - 1)]
        w.append(64 - sum(w))
        rng.shuffle(w)
        f = {2: BC.is_inside_edge, 3: BC.is_inside_triangle, 4: BC.is_inside_tetrahedron}[k]
        out, r = call(f, *[c / 64 for c in w])
        rec.emit(dict(op="inside", out=out, w=w, r=bool(r) if out == "ok" else False))
    if it < 12:
        n = 2 + it % 6
        out, r = call(lambda: (TET.generate_sample_points(n), TET.generate_interior_sample_points(n)))
        ok = out == "ok"
        rec.emit(dict(op="lattice", out=out, n=n, s=[fxv(w, n - 1) for w in r[0]] if ok else [], i=[fxv(w, n - 1) for w in r[1]] if ok else []))
        rec.emit(dict(op="refuse", out=call(TET.generate_sample_points, rng.choice([1, 0, -3]))[0]))
        rec.emit(dict(op="refuse", out=call(BC.compute_barycentric_edge, X[0], X[0], X[1])[0]))
rec.close()
