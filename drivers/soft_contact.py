"""Collision detection on affinely deformed soft boxes: every contact point is recorded."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_soft_bodies.collision_detection as CD
import rainbow.simulators.prox_soft_bodies.types as TY

A = W.soft_api()
rec = Recorder(a.out, chunk=120)
rng = random.Random(a.seed * 1000003 + a.part)
N = 12 if a.tier == "quick" else 300
BS = 2000
CUBE = [np.array(m).reshape(3, 3) for m in (fxmat(q) for _, q in W.cube_rotations())]
DIMS = [(1, 1, 1), (2, 2, 2), (0.6, 1, 2), (4, 1, 4), (2, 4, 1), (0.5, 0.5, 0.5), (0.4, 0.4, 0.4)]


def rand_M():
    m = rng.choice(CUBE)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i, j = rng.sample(range(3), 2)
        s = np.eye(3, dtype=int)
        s[i, j] = rng.choice([-1, 1])
        m = m @ s
    return m


cand = []
_reduce = getattr(CD, "_contact_reduction", None)
if _reduce is not None:
    def _spy(engine, *args, **kw):
        cand.append(len({(id(c.bodyA), id(c.bodyB), tuple(float(x) for x in c.p)) for c in engine.contact_points}))
        return _reduce(engine, *args, **kw)
    CD._contact_reduction = _spy


def contacts(E):
    idx = {id(b): k + 1 for k, b in enumerate(E.bodies.values())}
    keys = {}
    out = []
    for c in E.contact_points:
        pid = keys.setdefault(tuple(float(x) for x in c.p), len(keys))
        out.append(dict(A=idx.get(id(c.bodyA), 0), B=idx.get(id(c.bodyB), 0), p=frv(c.p, 1000), n=frv(c.n, 1000), g=fr(c.g, 1000), pid=pid,
                        tA=int(c.idx_tetA) + 1, tB=int(c.idx_tetB) + 1, wA=frv(c.omegaA, BS), wB=frv(c.omegaB, BS)))
    return out


def place(E, n, bd, r, M):
    x = np.round(np.array(r, dtype=float), 3) + bd["X"] @ M.T
    A.set_spatial_coordinates(E, n, x)
    bd["r"], bd["M"] = np.round(np.array(r, dtype=float), 3), M


def bodies(B):
    return [dict(r=fxv(b["r"], 1000, 1e-3), M=[int(v) for v in b["M"].ravel()], h=b["h"]) for b in B.values()]


def half(bd, M):
    c = np.array([[sx, sy, sz] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)]) * np.array(bd["h"]) / 1000.0
    return (c @ M.T).max(axis=0)


def build(hashing, spec, res, env, chunk, order):
    E = W.soft_engine(res)
    E.params.use_spatial_hashing = hashing
    E.params.envelope = env
    E.params.bvh_chunk_size = chunk
    E.params.K = 3
    for n, (cells, d, fixed) in spec.items():
        W.soft_body(E, n, cells, [x / c for x, c in zip(d, cells)], [-x / 2 for x in d], fixed=fixed, gravity=None)
    return E


for it in range(N):
    env = rng.choice([0.1, 0.1, 0.05, 0.2])
    res = rng.choice([8, 12, 16])
    nb = rng.choice([2, 2, 3])
    spec = {}
    for k in range(nb):
        spec["b%d" % k] = (rng.choice([(1, 1, 1), (1, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1)]), rng.choice(DIMS), rng.random() < 0.2)
    chunk = rng.choice([1, 3, 255])
    engines = {h: build(h, spec, res, env, chunk, None) for h in (True, False)}
    B = {}
    for n, b in engines[True].bodies.items():
        X = np.array(b.x0)
        X = X - (X.max(axis=0) + X.min(axis=0)) / 2
        B[n] = dict(X=X, h=frv((X.max(axis=0) - X.min(axis=0)) / 2, 1000))
    rec.begin(env=fr(env, 1000), res=res, mesh=[dict(V=[fxv(v, 1000) for v in B[n]["X"]], T=[[int(i) + 1 for i in t] for t in b.T]) for n, b in engines[True].bodies.items()])
    dead = False
    for _ in range(4):
        names = list(B)
        rng.shuffle(names)
        pos = {names[0]: (np.zeros(3), rand_M())}
        for k in range(1, nb):
            m = names[rng.randrange(k)]
            M = rand_M()
            hm, hk = half(B[m], pos[m][1]), half(B[names[k]], M)
            ax = rng.randrange(3)
            r = np.array(pos[m][0])
            for j in range(3):
                if j == ax:
                    r[j] += rng.choice([-1, 1]) * (hm[j] + hk[j] + rng.choice([-0.33, -0.2, -0.05, -0.01, 0, 0.02, 0.04, 0.07, 0.15, 0.3, round(0.8 * env, 3), round(0.8 * env, 3)]))
                else:
                    r[j] += rng.randint(-12, 12) / 10 * hm[j] + rng.randint(-20, 20) / 1000 if rng.random() < 0.7 else 0
            pos[names[k]] = (np.round(r, 3), M)
        res_cs = {}
        for h, E in engines.items():
            for n in names:
                place(E, n, B[n], *pos[n])
            bs = bodies(B)
            log = {}
            cand.clear()
            E.params.time_stamp += 1
            prof = rng.random() < 0.3
            out, _ = call(CD.run_collision_detection, E, log, prof)
            cs = contacts(E)
            rec.emit(dict(op="contacts", out=out, bodies=bs, cs=cs, prof=False, logn=0, cand=cand[-1] if len(cand) == 1 else -1, h=h))
            dead = dead or out != "ok"
            res_cs[h] = cs
        if dead:
            break
        small = lambda cs: [{k: c[k] for k in ("A", "B", "p", "n", "g")} for c in cs]
        rec.emit(dict(op="agree", hash=small(res_cs[True]), bvh=small(res_cs[False])))
    if not dead and rng.random() < 0.5:
        # a whole time step: the contacts are those at the start of the step
        E = engines[rng.random() < 0.5]
        for n in names:
            place(E, n, B[n], pos[n][0], rng.choice(CUBE))
        bs = bodies(B)
        cand.clear()
        E.params.use_post_stabilization = rng.random() < 0.5
        out, _ = call(A.simulate, E, 0.001, True)
        ok = out == "ok" and E.stepper is not None and len(E.stepper.log) > 0
        if out == "RuntimeError":
            continue      # the step itself (deep overlap) inverted an element: not a matter of contact detection
        rec.emit(dict(op="contacts", out=out, bodies=bs, cs=contacts(E), prof=bool(ok), logn=int(E.stepper.log[-1].get("contact_points", -1)) if ok else 0, cand=cand[-1] if len(cand) == 1 else -1, h=False))
rec.close()
