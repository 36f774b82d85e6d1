"""Soft bodies with folded, crossing surfaces: the overlapping triangle pairs found by spatial hashing."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_soft_bodies.collision_detection as CD

A = W.soft_api()
rec = Recorder(a.out, chunk=120)
rng = random.Random(a.seed * 1000003 + a.part)
N = 25 if a.tier == "quick" else 400
TET = np.array([[0, 0, 0], [16, 0, 0], [0, 16, 0], [0, 0, 16]])


def vols(x, T):
    return np.einsum("ij,ij->i", np.cross(x[T[:, 1]] - x[T[:, 0]], x[T[:, 2]] - x[T[:, 0]]), x[T[:, 3]] - x[T[:, 0]])


def mesh():
    """Material meshes in 1/16: separate tetrahedra, or a strip."""
    if rng.random() < 0.6:
        k = rng.choice([2, 2, 3])
        return np.vstack([TET + [40 * i, 0, 0] for i in range(k)]), np.array([[4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3] for i in range(k)]), k
    V, T = W.tet_box((rng.choice([2, 3]), 1, 1), (16, 16, 16))
    return V.astype(int), T, 0


def deform(V, T, k, right=False):
    for _ in range(200):
        if k:      # every tetrahedron anywhere, any shape
            mode = rng.random()
            if mode < 0.4:
                x = np.array(V)
                for t in T:
                    x[t] = rng.choice([1, 2]) * TET[np.array(rng.sample(range(4), 4))] * rng.choice([-1, 1]) + [rng.randint(-12, 12) for _ in range(3)]
            else:
                x = np.array([[rng.randint(-16, 16) for _ in range(3)] for _ in range(4 * k)])
        else:
            x = V + np.array([[rng.randint(-20, 20) if rng.random() < 0.5 else 0 for _ in range(3)] for _ in V])
            if rng.random() < 0.2:
                x = np.array(V)
            elif rng.random() < 0.3:   # fold the far end over
                x = np.array(V)
                far = V[:, 0] == V[:, 0].max()
                x[far] += [-rng.randint(20, 44), rng.choice([0, 4, 24]), rng.randint(-4, 4)]
        if np.all(vols(x, T) > 0) if right else np.all(vols(x, T) != 0):
            return x
    return np.array(V)


for it in range(N):
    nb = rng.choice([1, 1, 1, 2])
    E = W.soft_engine(8)
    E.params.use_spatial_hashing = True
    env, gap = rng.choice([(0.1, 3), (0.05, 1), (0.15, 4), (0.02, 0)])
    E.params.envelope = env
    B = []
    for k in range(nb):
        V, T, kk = mesh()
        A.create_soft_body(E, "b%d" % k, V / 16.0, T)
        b = E.bodies["b%d" % k]     # the engine's own numbering
        B.append((np.round(b.x0 * 16).astype(int), np.array(b.T), kk))
    # bodies that may not move: whole time steps then detect at the given positions
    steps = rng.random() < 0.5
    if steps:
        for k in range(nb):
            A.set_type(E, "b%d" % k, "fixed")
            A.set_elasticity(E, "default", 1.0, 0.3)
            E.params.max_iterations, E.params.time_step = 1, 0.0625
            E.params.use_post_stabilization = False
    rec.begin(gap=gap, mesh=[[[int(i) + 1 for i in t] for t in b.T] for b in E.bodies.values()])
    for _ in range(6):
        xs = []
        for k, (V, T, kk) in enumerate(B):
            x = deform(V, T, kk, steps) + ([rng.randint(-8, 8) * 2 for _ in range(3)] if nb > 1 else [0, 0, 0])
            A.set_spatial_coordinates(E, "b%d" % k, x / 16.0)
            xs.append([[int(c) for c in r] for r in x])
        log = {}
        E.contact_points = []
        if steps:
            seen = []

            def spy(engine, stats, debug_on):
                seen.append(detect(engine, stats, debug_on))
                return seen[-1]
            detect, CD.run_collision_detection = CD.run_collision_detection, spy
            try:
                out, _ = call(A.simulate, E, 0.0625, True)
            finally:
                CD.run_collision_detection = detect
            # the energies that are logged after the step do not exist for turned-over elements
            if out == "RuntimeError" and len(seen) == 1:
                out = "ok"
            log = dict(seen[0]) if len(seen) == 1 else {}
        else:
            E.params.time_stamp += 1
            out, _ = call(CD.run_collision_detection, E, log, True)
        idx = {id(b): k + 1 for k, b in enumerate(E.bodies.values())}
        own = [dict(b=idx[id(c.bodyA)], p=frv(c.p, 16000)) for c in E.contact_points if c.bodyA is c.bodyB] if out == "ok" else []
        rec.emit(dict(op="detect", out=out, x=xs, n=int(log.get("number_of_overlaps", -1)), own=own))
rec.close()
