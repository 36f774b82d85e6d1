"""Bounding volumes and hierarchies on integer meshes (coordinates and envelopes in halves)."""
import random
from vlib import *
a = args()
import numpy as np
import rainbow.geometry.kdop as KDOP
import rainbow.geometry.kdop_bvh as BVH
from rainbow.geometry.aabb import AABB

rec = Recorder(a.out, chunk=900)
rng = random.Random(a.seed * 1000003 + a.part)
quick = a.tier == "quick"
MODE = os.environ.get("MODE", "bvh")


def slabs(k):
    f = lambda v: OFF if v == np.inf else -OFF if v == -np.inf else fx(v, 2)
    return [[f(s.lower), f(s.upper)] for s in k.slabs]


def bvh(big=False):
    rec.begin(kind="bvh")
    K = rng.choice([3, 3, 4])
    m = {}
    for w in "AB":
        n = rng.choice([127, 128, 129, 150, 260]) if big == w else rng.choice([9, 20]) if big else rng.choice([0, 1, 1, 2, 3, 5, 8, 13])
        d = rng.choice([3, 4])
        nv = rng.randint(30, 60) if big == w else rng.randint(4, 12)
        m[w] = dict(nv=nv, T=np.array([rng.sample(range(nv), d) for _ in range(n)], dtype=int).reshape(n, d), V=None, tree=None, N=rng.choice([255, 255, 63, 31]) if big else rng.choice([1, 2, 3, 4, 5, 7, 255]))

    def nodes(w):
        c = np.array([rng.randint(-6, 6) for _ in range(3)])
        r = 12 if big == w else rng.choice([1, 3, 6])
        return np.array([[c[i] + rng.randint(-r, r) for i in range(3)] for _ in range(m[w]["nv"])]) / 2

    def put(w, op):
        x = m[w]
        V, env = nodes(w), rng.choice([0, 0, 1, 3])
        Kw = K if op == "make" or rng.random() < 0.9 else 7 - K
        keep, keepT = V.copy(), x["T"].copy()
        if op == "make":
            if env == 0 and rng.random() < 0.5:
                out, x["tree"] = call(BVH.make_bvh, V, x["T"], Kw, x["N"])
            else:
                out, x["tree"] = call(BVH.make_bvh, V, x["T"], Kw, x["N"], env / 2)
        else:
            out, _ = call(BVH.refit_bvh, V, x["T"], x["tree"], Kw, env / 2)
        rec.emit(dict(op=op, which=w, K=Kw, V=[fxv(p, 2) for p in V], T=x["T"].tolist(), env=env, out=out, root=slabs(x["tree"].root) if x["tree"] is not None else [], frozen=bool((V == keep).all() and (x["T"] == keepT).all())))
        if rng.random() < 0.5:
            V += 100.0                   # the tree must not depend on the caller's array any more
        return x["tree"] is not None

    def cross():
        out, r = call(BVH.traversal, m["A"]["tree"], m["B"]["tree"])
        rec.emit(dict(op="traverse", out=out, res=[[int(p), int(q)] for p, q in r] if r is not None else []))
    if not (put("A", "make") and put("B", "make")):
        return
    cross()
    for _ in range(rng.randint(0, 4)):
        if rng.random() < 0.7:
            put(rng.choice("AB"), "refit")
        cross()


def volumes():
    rec.begin(kind="volumes")
    for _ in range(20):
        pts = lambda n: np.array([[rng.randint(-4, 4) for _ in range(3)] for _ in range(n)]) / 2
        P, Q = pts(rng.randint(1, 4)), pts(rng.randint(1, 4)) + rng.choice([0, 0, 1, 2]) * np.array([rng.randint(-1, 1) for _ in range(3)])
        K, ea, eb = rng.choice([3, 4]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2])
        A = KDOP.make(K, P, ea / 2) if ea or rng.random() < .5 else KDOP.make(K, P)
        B = KDOP.make(K, Q, eb / 2)
        C = KDOP.make(7 - K, P)
        before = slabs(A), slabs(B)
        U = KDOP.union(A, B)
        ov = bool(KDOP.overlap(A, B)), bool(KDOP.overlap(B, A))
        rec.emit(dict(op="kdop", K=K, P=[fxv(p, 2) for p in P], Q=[fxv(p, 2) for p in Q], ea=ea, eb=eb, A=slabs(A), B=slabs(B), U=slabs(U), over=ov[0], over2=ov[1], mixed=[call(KDOP.overlap, A, C)[0], call(KDOP.union, C, A)[0]]))
        x, y = AABB.create_from_vertices(P if rng.random() < .5 else P.tolist()), AABB.create_from_vertices(Q)
        keep = [v.copy() for v in (x.min_point, x.max_point, y.min_point, y.max_point)]
        m = rng.choice([0, 0, 1, 2])
        f = (lambda p, q: AABB.is_overlap(p, q, m / 2)) if m or rng.random() < .5 else AABB.is_overlap
        o1, o2 = bool(f(x, y)), bool(f(y, x))
        frozen = all((u == v).all() for u, v in zip(keep, (x.min_point, x.max_point, y.min_point, y.max_point)))
        rec.emit(dict(op="aabb", P=[fxv(p, 2) for p in P], Q=[fxv(p, 2) for p in Q], A=[fxv(keep[0], 2), fxv(keep[1], 2)], B=[fxv(keep[2], 2), fxv(keep[3], 2)], m=m, over=o1, over2=o2, frozen=bool(frozen)))


if MODE == "bvh":
    for _ in range(200 if quick else 2500):
        bvh()
    for i in range(4 if quick else 40):
        bvh("AB"[i % 2])
else:
    for _ in range(60 if quick else 800):
        volumes()
rec.close()
