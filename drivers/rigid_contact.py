"""Collision detection on box worlds in axis-aligned poses: every contact point is recorded."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_rigid_bodies.collision_detection as CD
import rainbow.simulators.prox_rigid_bodies.steppers as ST

A = W.rigid_api()
rec = Recorder(a.out, chunk=150)
rng = random.Random(a.seed * 1000003 + a.part)
N = 30 if a.tier == "quick" else 500
ROTS = W.cube_rotations()
DIMS = [(1, 1, 1), (2, 2, 2), (0.6, 1, 2), (4, 1, 4), (2, 4, 1), (6, 1, 6), (0.5, 0.5, 0.5)]


cand = []      # distinct (pair, point) candidates before duplicate removal
_reduce = getattr(CD, "_contact_reduction", None)
if _reduce is not None:
    def _spy(engine, *args, **kw):
        cand.append(len({(frozenset((id(c.bodyA), id(c.bodyB))), tuple(float(x) for x in c.p)) for c in engine.contact_points}))
        return _reduce(engine, *args, **kw)
    CD._contact_reduction = _spy


def contacts(E):
    idx = {b: k + 1 for k, b in enumerate(E.bodies.values())}
    keys = {}
    out = []
    for c in E.contact_points:
        pid = keys.setdefault(tuple(float(x) for x in c.p), len(keys))
        out.append(dict(A=idx.get(c.bodyA, 0), B=idx.get(c.bodyB, 0), p=frv(c.p, 1000), n=frv(c.n, 1000), g=fr(c.g, 1000), pid=pid))
    return out


def bodies(E, halves):
    return [dict(r=fxv(b.r, 1000, 1e-3), R=fxmat(b.q), h=halves[n]) for n, b in E.bodies.items()]


def pose(E, n, near):
    A.set_orientation(E, n, np.array(rng.choice(ROTS)[1]), use_model_frame=False)
    A.set_position(E, n, np.array(near, dtype=float))


def aabb_half(E, n, halves):
    R = np.array(fxmat(E.bodies[n].q)).reshape(3, 3)
    return np.abs(R @ np.array(halves[n])) / 1000.0


for it in range(N):
    E = W.rigid_engine(rng.choice([8, 12, 16]))
    E.params.bvh_chunk_size = rng.choice([3, 7, 255])
    E.params.K = rng.choice([3, 3, 4])
    env = rng.choice([0.1, 0.1, 0.05, 0.2])
    E.params.envelope = env
    E.stepper = E.stepper or ST.SemiImplicitStepper()
    nb = rng.randint(2, 4)
    halves = {}
    for k in range(nb):
        d = rng.choice(DIMS)
        n = "b%d" % k
        W.rigid_box(E, n, d, (0, 0, 0))
        # the shape's own frame may permute the axes of the mesh
        V = E.bodies[n].shape.mesh.V
        halves[n] = frv((V.max(axis=0) - V.min(axis=0)) / 2, 1000)
        if rng.random() < 0.3:
            A.set_body_type(E, n, "fixed")
    rec.begin(env=fr(env, 1000), res=E.params.resolution)
    for _ in range(5):
        names = list(E.bodies)
        rng.shuffle(names)
        pose(E, names[0], (0, 0, 0))
        for k in range(1, nb):
            # put it against an earlier one along an axis, with some overlap or separation
            m = names[rng.randrange(k)]
            pose(E, names[k], (0, 0, 0))
            ha, hb = aabb_half(E, m, halves), aabb_half(E, names[k], halves)
            ax = rng.randrange(3)
            r = np.array(E.bodies[m].r)
            for j in range(3):
                if j == ax:
                    r[j] += rng.choice([-1, 1]) * (ha[j] + hb[j] + rng.choice([-0.2, -0.05, -0.01, 0, 0.02, 0.04, 0.07, 0.15, 0.3]))
                else:
                    r[j] += rng.randint(-12, 12) / 10 * ha[j] if rng.random() < 0.7 else 0
            A.set_position(E, names[k], np.round(r, 3))
        prof = rng.random() < 0.5
        bs = bodies(E, halves)
        log = {}
        cand.clear()
        if rng.random() < 0.6:
            out, _ = call(CD.run_collision_detection, E, log, False)
            prof = False
        else:
            out, _ = call(A.simulate, E, 0.001, prof)
            log = E.stepper.log[-1] if prof and E.stepper.log else {}
        rec.emit(dict(op="contacts", out=out, bodies=bs, cs=contacts(E), prof=bool(prof and out == "ok"), cand=cand[-1] if len(cand) == 1 else -1,
                      maxpen=fr(log.get("max_penetration", -1), 1000), logn=int(log.get("contact_points", -1))))
        if out != "ok":
            break
rec.close()
