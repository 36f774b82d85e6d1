"""Surface meshes: generators, hulls and the operations on meshes."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.geometry.surface_mesh as SM

rec = Recorder(a.out, chunk=100)
rng = random.Random(a.seed * 1000003 + a.part)
S = 32
N = 45 if a.tier == "quick" else 700
CUBE = W.cube_rotations()


def mesh(V, T, s=S):
    return dict(V=[frv(v, s) for v in np.asarray(V)], T=[[int(i) + 1 for i in t] for t in np.asarray(T)])


def q4(lo, hi):
    return rng.randint(lo, hi) / 4


def make(kind):
    sl, seg = rng.choice([3, 4, 5, 6, 8, 12]), rng.choice([3, 4, 5, 7, 12])
    ev = dict(op="make", kind=kind, slices=sl, segments=seg, p=[0], prof=[])
    P = None
    if kind == "box":
        d = [q4(1, 12) for _ in range(3)]
        f = lambda: SM.create_box(*d)
        ev["p"] = [fr(x / 2, S) for x in d]
    elif kind == "cuboid":
        c = [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
        M = np.array(fxmat(rng.choice(CUBE)[1])).reshape(3, 3) @ np.diag([q4(2, 8) for _ in range(3)])
        sh = np.eye(3)
        if rng.random() < 0.5:
            i, j = rng.sample(range(3), 2)
            sh[i, j] = rng.choice([-0.5, 0.5])
        pts = np.array(c) @ (M @ sh).T + [q4(-8, 8) for _ in range(3)]
        if rng.random() < 0.5:
            pts = pts + np.array([[rng.randint(-1, 1) / 8 for _ in range(3)] for _ in pts])
        f = lambda: SM.create_cuboid(*pts)
        ev["p"] = [frv(x, S) for x in pts]
    elif kind == "sweep":
        n = rng.choice([3, 4, 5, 6])
        P = [(0, 0)]
        y = 0
        for _ in range(n - 2):
            P.append((q4(1, 12), y))
            y += q4(1, 4)
        P.append((0, y if rng.random() < 0.7 else P[-1][1]))
        y0 = q4(-8, 4)
        P = [(r, y + y0) for r, y in P]
        f = lambda: SM.profile_sweep([np.array([r, y, 0.0]) for r, y in P], sl)
    elif kind == "cylinder":
        r, h, seg = q4(1, 12), q4(2, 16), rng.choice([1, 1, 2, 3, 5])
        P = [(0, -h / 2)] + [(r, -h / 2 + h * k / seg) for k in range(seg + 1)] + [(0, h / 2)]
        f = (lambda: SM.create_cylinder(r, h, sl)) if seg == 1 and rng.random() < 0.5 else (lambda: SM.create_cylinder(r, h, sl, seg))
    elif kind == "cone":
        r, h = q4(1, 12), q4(2, 16)
        P = [(0, 0), (r, 0), (0, h)]
        f = lambda: SM.create_cone(r, h, sl)
    elif kind == "conical":
        b, t, h = q4(1, 12), q4(1, 12), q4(2, 16)
        P = [(0, 0), (b, 0), (t, h), (0, h)]
        f = lambda: SM.create_conical(b, t, h, sl)
    elif kind == "sphere":
        r = q4(2, 12)
        f = lambda: SM.create_sphere(r, sl, seg)
        ev["p"] = [fr(r, S)]
    elif kind == "ellipsoid":
        d = [q4(3, 12) for _ in range(3)]
        f = lambda: SM.create_ellipsoid(*d, sl, seg)
        ev["p"] = [fr(x, S) for x in d]
    elif kind == "capsule":
        r, h = q4(2, 10), q4(1, 12)
        f = lambda: SM.create_capsule(r, h, sl, seg)
        ev["p"] = [fr(r, S), fr(h / 2, S)]
    else:
        R = q4(6, 10)
        r = q4(1, int(R * 4) - 2)
        s = 16
        out, v = call(SM.create_torus, R, r, seg, sl)
        ev.update(out=out, p=[fr(R, s), fr(r, s)], m=mesh(*v, s=s) if out == "ok" else 0)
        return ev, (v if out == "ok" else None)
    if P is not None:
        ev["prof"] = [[fr(r, S), fr(y, S)] for r, y in P]
    out, v = call(f)
    ev.update(out=out, m=mesh(*v) if out == "ok" else 0)
    return ev, (v if out == "ok" else None)


KINDS = ["box", "cuboid", "sweep", "cylinder", "cone", "conical", "sphere", "ellipsoid", "capsule", "torus"]
for it in range(N):
    rec.begin()
    kind = rng.choice(KINDS)
    ev, v = make(kind)
    rec.emit(ev)
    if it % 5 == 0:
        n = rng.randint(4, 12)
        pts = np.array([[rng.randint(-30, 30) for _ in range(3)] for _ in range(n)], dtype=float)
        if np.linalg.matrix_rank(pts[1:] - pts[0]) == 3:
            out, h = call(SM.create_convex_hull, pts)
            rec.emit(dict(op="hull", out=out, pts=[fxv(x) for x in pts], m=mesh(*h, s=1) if out == "ok" else 0))
    if it % 9 == 0:
        for prof, sl in (([np.zeros(3), np.array([0, 1.0, 0])], 6), ([np.zeros(3), np.array([1.0, 0, 0]), np.array([0, 1.0, 0])], rng.choice([0, 1, 2]))):
            rec.emit(dict(op="refuse", out=call(SM.profile_sweep, prof, sl)[0]))
    # operations on a mesh with exact coordinates (integers)
    if rng.random() < 0.6:
        V = np.array([[rng.randint(-20, 20) for _ in range(3)] for _ in range(rng.randint(4, 9))], dtype=float)
        T = np.array([rng.sample(range(len(V)), 3) for _ in range(rng.randint(2, 10))], dtype=int)
    else:
        V, T = SM.create_box(*[rng.randint(1, 8) * 2 for _ in range(3)])
    if len({tuple(x) for x in V}) < len(V):
        continue
    keep = (np.array(V), np.array(T))
    M = SM.Mesh(V, T)

    def step(kind, p, f, s=1, **more):
        b = mesh(M.V, M.T, 1)
        out, r = call(f)
        rec.emit(dict(op="xform", kind=kind, p=p, out=out, m=b, after=mesh(M.V, M.T, s), S=1, lo=more.get("lo", [0]) if out != "ok" else fxv(r[0]) if kind == "aabb" else [0], hi=fxv(r[1]) if kind == "aabb" and out == "ok" else [0]))
        return out == "ok"
    for _ in range(3):
        k = rng.choice(["translate", "rotate", "scale", "aabb", "sort", "sort"])
        if k == "translate":
            p = [rng.randint(-9, 9) for _ in range(3)]
            step(k, p, lambda: SM.translate(M, np.array(p, dtype=float)))
        elif k == "rotate":
            _, q = rng.choice(CUBE)
            step(k, fxmat(q), lambda: SM.rotate(M, np.array(q)))
            M.V = np.round(M.V)
        elif k == "scale":
            p = [rng.randint(1, 3) for _ in range(3)]
            if np.abs(M.V).max() < 60:
                step(k, p, lambda: SM.scale(M, *p))
        elif k == "aabb":
            step(k, [0], lambda: SM.aabb(M))
        else:
            p = rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [1, 2, 2], [0, -3, 4]])
            step(k, p, lambda: SM.axis_sort(M, np.array(p, dtype=float)))
    rec.emit(dict(op="xform", kind="copy", out="ok", p=[0], m=mesh(*keep, s=1), after=mesh(V, T, 1), S=1, lo=[0], hi=[0]))
    if rng.random() < 0.5:
        step("unit", [0], lambda: SM.scale_to_unit(M), s=1024)
rec.close()
