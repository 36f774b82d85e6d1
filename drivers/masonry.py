"""The builders of scenes, with random sizes and frames; what they built is read from the engine."""
import inspect
import logging
import math
import os
import random
from vlib import *
a_ = args()
import numpy as np
from worlds import *
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as SC
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3

logging.disable(logging.CRITICAL)
os.chdir(REPO)                                   # the builders read ./data
rec = Recorder(a_.out, chunk=40)
rng = random.Random(a_.seed * 1000003 + a_.part + 11)
np.random.seed(a_.seed * 31 + a_.part)
c = rng.choice
N = 60 if a_.tier == "quick" else 700
S = 1000
S2 = 0.7071067811865476


def turn():
    q = np.array([1.0, 0, 0, 0])
    for _ in range(rng.randint(0, 4)):
        q = Q.prod(q, np.array(c([[S2, S2, 0, 0], [S2, 0, S2, 0], [S2, 0, 0, S2]])))
    return q / np.linalg.norm(q)


def mat(q):
    return fxv(np.array(qmat(np.asarray(q, dtype=float))).ravel())


def frame(plain=0.2):
    if rng.random() < plain:
        return np.array([0.0, 0, 0]), np.array([1.0, 0, 0, 0])
    return np.array([float(rng.randint(-4, 4)) for _ in range(3)]), turn()


def world(b, R=None):
    R = np.array(qmat(np.asarray(b.q, dtype=float))).reshape(3, 3)
    return np.asarray(b.shape.mesh.V, dtype=float) @ R.T + np.asarray(b.r, dtype=float)


def volume(V, T):
    return float(sum(np.dot(V[t[0]], np.cross(V[t[1]], V[t[2]])) for t in np.asarray(T)) / 6.0)


def held(E):
    return {x: (np.array(b.r).tobytes(), np.array(b.q).tobytes(), float(b.mass), b.is_fixed, b.material, id(b.shape)) for x, b in E.bodies.items()}


def build(E, op, kind, F, density, material, fixed, fn, points=True, **more):
    """Runs a builder and records what is new in the engine."""
    before, hinges = held(E), set(E.hinges)
    out, names = call(fn, timeout=120)
    ev = dict(op=op, kind=kind, out=out, F=dict(m=mat(F[1]), r=fxv(F[0] * S)), names=[], fresh=[], bodies=[], V=[], fixed=fixed, others=True, **more)
    if out == "ok":
        fresh = [b for x, b in E.bodies.items() if x not in before]
        ev["fresh"] = [b.name for b in fresh]
        names = ev["fresh"] if names is None and kind == "ground" else names
        ev["names"] = [x if isinstance(x, str) else "not a name" for x in names] if isinstance(names, (list, tuple)) else ["not a list"]
        now = held(E)
        ev["others"] = all(now.get(x) == before[x] for x in before)
        for b in fresh:
            should = density * volume(np.asarray(b.shape.mesh.V, dtype=float), b.shape.mesh.T)
            big = max(1.0, should)
            ev["bodies"].append(dict(fixed=bool(b.is_fixed), material=b.material == material, mass=fr(b.mass / big, 10**6), should=fr(should / big, 10**6), rest=not (np.any(b.v) or np.any(b.w))))
            if points:
                ev["V"].append([frv(v, S) for v in world(b)])
        if kind == "lattice":
            ev["pos"], ev["turn"], ev["shape"] = [frv(b.r, S) for b in fresh], [mat(b.q) for b in fresh], [b.shape.name for b in fresh]
        if kind == "chain":
            at = {b.name: i + 1 for i, b in enumerate(fresh)}
            ev["hinges"] = []
            for x, h in E.hinges.items():
                if x not in hinges:
                    o, a = [], []
                    for b, arm, axis in ((h.parent, h.arm_p, h.axis_p), (h.child, h.arm_c, h.axis_c)):
                        R = np.array(qmat(np.asarray(b.q, dtype=float))).reshape(3, 3)
                        o.append(frv(R @ np.asarray(arm, dtype=float) + b.r, S))
                        a.append(frv(R @ np.asarray(axis, dtype=float), S))
                    ev["hinges"].append(dict(p=at.get(h.parent.name, 0), c=at.get(h.child.name, 0), o=o, a=a))
    rec.emit(ev)
    return out


i_ = lambda x: int(round(x * S))
tenths = lambda lo, hi, step=5: rng.randrange(int(lo * 10), int(hi * 10) + 1, step) / 10.0


def scene(E, kind, density, mat_):
    r, q = F = frame()
    if kind == "pillar":
        w, h, d, K = tenths(0.6, 2, 2), tenths(2, 6), tenths(0.6, 2, 2), rng.randint(1, 5)
        return build(E, "build", kind, F, density, mat_, 0, lambda: SC.create_pillar(E, r, q, w, h, d, K, density, mat_), p=dict(w=i_(w), h=i_(h), d=i_(d), K=K))
    if kind == "arch":
        w, d, K, A = c([1.0, 2.0, 3.0]), tenths(0.4, 1.4, 2), rng.randint(1, 4), c([3, 5, 7, 9])
        h = w / 2 + tenths(0.5, 4)
        return build(E, "build", kind, F, density, mat_, 0, lambda: SC.create_arch(E, r, q, w, h, d, K, A, density, mat_), p=dict(w=i_(w), h=i_(h), d=i_(d), K=K, A=A))
    if kind == "dome":
        ri, L, G = tenths(2, 4), rng.randint(1, 4), rng.randint(3, 8)
        ro = ri + c([0.5, 1.0])
        lv = [i_(ro * math.sin(k * math.pi / (2 * (L + 1)))) for k in range(L + 1)]
        return build(E, "build", kind, F, density, mat_, 0, lambda: SC.create_dome(E, r, q, ro, ri, L, G, density, mat_), p=dict(ri=i_(ri), ro=i_(ro), L=L, G=G, levels=lv))
    if kind == "tower":
        ri, L, G, h, cubes, safe = tenths(2, 4), rng.randint(1, 4), rng.randint(4, 8), tenths(2, 6), rng.random() < 0.5, c([0.99, 1.0, 0.9])
        ro = ri + c([0.4, 1.0])
        cc = (ri + ro) / 2
        kw = {} if safe == 0.99 and rng.random() < 0.5 else dict(safety_factor=safe)
        return build(E, "build", kind, F, density, mat_, 0, lambda: SC.create_tower(E, r, q, ro, ri, h, L, G, cubes, density, mat_, **kw),
                     p=dict(ri=i_(ri), ro=i_(ro), L=L, G=G, h=i_(h), cubes=cubes, safe=int(round(safe * 1000)), tan=int(round(1000 * math.tan(math.pi / G))),
                            chord=i_(2 * cc * math.sin(math.pi / G)), bond=i_(2 * cc * math.sin(math.pi / (2 * G)))))
    if kind == "stack":
        w, h, d, K = tenths(0.4, 3, 2), tenths(0.4, 2, 2), tenths(0.4, 3, 2), rng.randint(1, 8)
        I = (np.zeros(3), np.array([1.0, 0, 0, 0]))
        return build(E, "build", kind, I, density, mat_, 0, lambda: SC.create_box_stack(E, w, h, d, K, density, mat_), p=dict(w=i_(w), h=i_(h), d=i_(d), K=K))
    if kind == "ground":
        return build(E, "build", kind, F, density, mat_, 1, lambda: SC.create_ground(E, r, q, density, mat_), p={})
    if kind == "chain":
        e, K = tenths(0.4, 4, 2), rng.randint(1, 5)
        I = (np.zeros(3), np.array([1.0, 0, 0, 0]))
        return build(E, "build", kind, I, density, mat_, 1, lambda: SC.create_cube_hinge_chain(E, e, K, density, mat_), p=dict(e=i_(e), K=K))
    if kind == "lattice":
        shapes = []
        for k in range(rng.randint(1, 3)):
            x = API.generate_unique_name("s")
            V, T = box_mesh([c([0.2, 0.4, 0.6]) for _ in range(3)])
            API.create_shape(E, x, API.create_mesh(V, T))
            shapes.append(x)
        I, J, K = [rng.randint(1, 3) for _ in range(3)]
        w, h, d = I * tenths(0.6, 2, 2), J * tenths(0.6, 2, 2), K * tenths(0.6, 2, 2)
        qb = turn() if rng.random() < 0.6 else None
        return build(E, "build", kind, F, density, mat_, 0, lambda: SC.create_lattice(E, r, q, shapes, w, h, d, I, J, K, density, mat_, False, qb), points=False,
                     p=dict(w=i_(w), h=i_(h), d=i_(d), I=I, J=J, K=K, turn=mat(qb if qb is not None else np.array([1.0, 0, 0, 0])), shapes=shapes))
    if kind in ("colosseum", "pantheon"):
        ri, h, L = tenths(2, 4), tenths(3, 6), rng.randint(1, 2)
        ro = ri + 1.0
        G = rng.randint(4, 6)
        if kind == "colosseum":                       # arches must be higher than half their width
            G = rng.randint(5, 7)
            L = max(1, min(L, int(0.85 * h / (1.1 * math.tan(math.pi / G) * ri))))
            h = max(h, 1.3 * math.tan(math.pi / G) * ri)
        fn = SC.create_colosseum if kind == "colosseum" else SC.create_pantheon
        I = (np.zeros(3), np.array([1.0, 0, 0, 0]))
        F = frame(0)
        while mat(F[1])[4] == 1 or not np.all(F[0]):      # a frame that tilts the structure
            F = frame(0)
        build(E, "base", kind, I, density, mat_, 0, lambda: fn(E, I[0], I[1], ro, ri, h, L, G, density, mat_))
        return build(E, "moved", kind, F, density, mat_, 0, lambda: fn(E, r2(F), F[1], ro, ri, h, L, G, density, mat_))
    big = dict(
        funnel=(1, lambda: SC.create_funnel(E, 4., 4., 4., 8., 4., 1, 2, 1, density, mat_)),
        glasses=(1, lambda: SC.create_glasses(E, 4., 2., 3., 3., 3., 1, 2, 1, density, mat_)),
        poles=(4, lambda: SC.create_poles(E, 2., .1, 2, 2, 4., 4., 4., 1, 2, 1, density, mat_)),
        temple=(0, lambda: SC.create_temple(E, 4, 4, 1., 3., 1., 2, density, mat_)),
        chainmail=(4, lambda: SC.create_chainmail(E, 2, .5, 3, 3, .75, density, mat_)),
        unpinned=(0, lambda: SC.create_chainmail(E, 2, .5, 2, 3, .75, density, mat_, pinned=False)),
        jacks=(0, lambda: SC.create_jack_lattice(E, r, q, 4., 4., 4., 2, 1, 2, density, mat_)),
        rocks=(1, lambda: SC.create_rock_slide(E, 8, 4, 2, 2, 1, 1, density, mat_)),
        gears=(1, lambda: SC.create_gear_train(E, 3, density, mat_)),
        sandbox=(5, lambda: SC.create_sandbox(E, 10, 10, 10, 2, 1, 1, density, mat_)))
    fixed, fn = big[kind]
    return build(E, "roll", kind, F, density, mat_, fixed, fn, points=False)


def r2(F):
    return F[0]


KINDS = ["pillar", "arch", "dome", "tower", "stack", "chain", "lattice", "ground"]
ONCE = ["colosseum", "pantheon", "funnel", "glasses", "poles", "temple", "chainmail", "unpinned", "jacks", "gears", "sandbox", "rocks"]
once = [k for i, k in enumerate(ONCE) if i % max(1, a_.parts) == a_.part % max(1, a_.parts)]
plan = [[c(KINDS) for _ in range(c([1, 1, 2, 3]))] for _ in range(N)] + [[k] for k in once for _ in range(1 if a_.tier == "quick" else 6)]
for kinds in plan:
    rec.begin()
    E = API.create_engine()
    E.params.resolution = 3
    material = c(["default", "stone"])
    API.create_surfaces_interaction(E, "stone", "stone", 0.1, np.array([0.5, 0.5, 0.5]))
    for kind in kinds:
        scene(E, kind, c([0.5, 1.0, 2.0]), material)
rec.close()
