"""Time steps of small soft worlds with prescribed contacts."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_soft_bodies.collision_detection as CD
from rainbow.simulators.prox_soft_bodies.types import ContactPoint

A = W.soft_api()
rec = Recorder(a.out, chunk=150)
rng = random.Random(a.seed * 1000003 + a.part)
S = 1024
N = 60 if a.tier == "quick" else 900
MATS = ["default", "iron", "ice", "Rubber"]
NORMALS = [(0, 1, 0), (0, -1, 0), (1, 0, 0), (-1, 0, 0), (0, 0, 1), (0, 0, -1), (0.6, 0.8, 0), (0, -0.6, 0.8), (-0.8, 0, 0.6)]
WEIGHTS = [(4, 0, 0, 0), (2, 1, 1, 0), (0, 2, 2, 0), (1, 1, 1, 1), (-2, 2, 2, 2), (2, 2, 2, -2), (2, -2, 3, 1), (0, 0, 1, 3), (0, 4, 0, 0), (0, 1, 0, 3)]
CUBE = [np.array(m).reshape(3, 3) for m in (fxmat(q) for _, q in W.cube_rotations())]
TETV = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]])
count = [0, 0]


def rv(lim, q=4):
    return np.array([rng.randint(-lim * q, lim * q) / q for _ in range(3)])


def world():
    E = W.soft_engine(4)
    p = E.params
    p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 1e-7, 0.0, 0.0
    p.max_iterations = 600
    p.time_step = 1 / 256
    p.use_spatial_hashing = rng.random() < 0.5
    p.use_post_stabilization = rng.random() < 0.5
    p.min_gap_value = rng.choice([1, 8, 36]) / S
    p.proximal_solver = "gauss_seidel"
    for m in MATS[1:]:
        A.create_material(E, m)
    for m in MATS:
        # the masses of the nodes are integers that divide 48; softness does not matter, nothing is deformed
        A.set_mass_density(E, m, rng.choice([24.0, 48.0]))
        A.set_elasticity(E, m, 100.0, 0.25)
        A.set_viscosity(E, m, 0.0)
    table = {}
    pairs = [(x, y) for i, x in enumerate(MATS) for y in MATS[i:] if (x, y) != ("default", "default")]
    for x, y in rng.sample(pairs, rng.randint(0, 5)):
        mu4 = rng.choice([0, 0, 1, 2, 4, 6])
        if rng.random() < 0.5:
            x, y = y, x
        A.create_surfaces_interaction(E, x, y, mu4 / 4)
        table[frozenset((x, y))] = mu4
    if rng.random() < 0.5:
        E.surfaces_interactions.get_interaction("default", "default").mu[0] = rng.choice([0, 2, 3]) / 4
    table.setdefault(frozenset(["default"]), fx(float(np.ravel(E.surfaces_interactions.get_interaction("default", "default").mu)[0]), 4))
    nb = rng.choice([2, 2, 3])
    for k in range(nb):
        n = "b%d" % k
        V = TETV if rng.random() < 0.7 else np.vstack([TETV, [[1, 1, 1.0]]])
        T = np.array([[0, 1, 2, 3]]) if len(V) == 4 else np.array([[0, 1, 2, 3], [1, 2, 3, 4]])
        for t in T:
            if np.linalg.det(V[t[1:]] - V[t[0]]) < 0:
                t[2], t[3] = t[3], t[2]
        V = V @ rng.choice(CUBE).T.astype(float)
        A.create_soft_body(E, n, V, T)
        A.set_material(E, n, rng.choice(MATS))
        A.set_gravity(E, n, [0.0, -8.0 * rng.randint(0, 1), 0.0])
    return E, table


def run():
    E, table = world()
    names = list(E.bodies)
    if rng.random() < 0.3:
        A.set_type(E, rng.choice(names), "fixed")
    if rng.random() < 0.4:
        b = rng.choice(names)
        lim = rng.choice(NORMALS[:6])
        mid = float(np.dot(E.bodies[b].x0.mean(axis=0), lim))
        A.create_dirichlet_conditions(E, b, lambda x: float(np.dot(x, lim)) - mid)
    rec.begin()
    dt = 1 / 256
    for _ in range(4):
        # an undeformed state: every body where it was made; Dirichlet nodes stay where they are pinned
        for n, b in E.bodies.items():
            A.set_spatial_coordinates(E, n, np.array(b.x0))
            A.set_velocity(E, n, rv(2) * 0)
            b.u[:] = np.array([rv(2) for _ in b.u]) if rng.random() < 0.5 else rv(2)
        free, m, u1, x, gidx = [], [], [], [], []
        for n, b in E.bodies.items():
            pinned = {int(d.idx) for d in b.dirichlet_conditions}
            mm = np.zeros(len(b.x))
            rho = E.materials[b.material_description.name].rho
            for t in b.T:
                vol = abs(np.linalg.det(b.x0[t[1:]] - b.x0[t[0]])) / 6
                mm[t] += rho * vol / 4
            for i in range(len(b.x)):
                fixed = b.is_fixed or i in pinned
                free.append(not fixed)
                m.append(mm[i])
                x.append(np.array(b.x[i]))
                u1.append(np.zeros(3) if fixed else b.u[i] + dt * np.array(b.gravity))
            gidx.append(b.offset)
        if any(abs(v - round(v)) > 1e-9 or 48 % int(round(v)) for v in m):
            return
        K = rng.choice([1, 1, 1, 2, 3, 4])
        cps, evs, meet = [], [], True
        for _ in range(K):
            i, j = rng.sample(range(len(names)), 2)
            bi, bj = E.bodies[names[i]], E.bodies[names[j]]
            ti, tj = rng.randrange(len(bi.T)), rng.randrange(len(bj.T))
            wi, wj = rng.choice(WEIGHTS), rng.choice(WEIGHTS)
            nn = rng.choice(NORMALS)
            g = rng.choice([-128, -32, -9, -2, 0, 4, 50]) / S
            pa, pb = np.array(wi) / 4 @ bi.x[bi.T[ti]], np.array(wj) / 4 @ bj.x[bj.T[tj]]
            meet = meet and np.abs(pa - pb).max() < 1e-9
            evs.append(dict(a=[int(t) + bi.offset + 1 for t in bi.T[ti]], b=[int(t) + bj.offset + 1 for t in bj.T[tj]], wa=list(wi), wb=list(wj), n=frv(nn, S), g=fr(g, S),
                            mu4=table.get(frozenset((bi.material_description.name, bj.material_description.name)), table[frozenset(["default"])])))
            cps.append((bi, bj, ti, tj, np.array(wi) / 4, np.array(wj) / 4, pa, np.array(nn, dtype=float), g))
        called = []

        def fake(engine, stats, debug_on):
            called.append(1)
            engine.contact_points = [ContactPoint(*c) for c in cps]
            return stats
        orig, CD.run_collision_detection = CD.run_collision_detection, fake
        x0 = [np.array(b.x) for b in E.bodies.values()]
        try:
            out, _ = call(A.simulate, E, dt, True)
        finally:
            CD.run_collision_detection = orig
        if len(called) != 1:
            return
        log = E.stepper.log[-1] if out == "ok" else {}

        def conv(prefix):
            code, rej = None, 0
            for k, v in log.items():
                if k == prefix + "exitcode":
                    code = v
                if k == prefix + "reject":
                    rej = int(np.sum(v))
            return bool(code == 1 and rej <= 15)
        u2 = np.vstack([b.u for b in E.bodies.values()])
        xs = np.vstack([b.x for b in E.bodies.values()])
        dx = xs - np.vstack(x0) - dt * u2
        c1, c2 = conv("gauss_seidel_"), conv("post_stabilization_")
        count[0] += c1
        count[1] += 1
        rec.emit(dict(op="step", out=out, nodes=[dict(m=int(round(m[k])), fixed=not free[k], x=frv(x[k], S), u=frv(u1[k], S)) for k in range(len(m))], cs=evs,
                      u2=[frv(v, S) for v in u2], dx=[frv(v, S) for v in dx], conv=c1, pconv=c2, post=E.params.use_post_stabilization, mingap=fr(E.params.min_gap_value, S), meet=bool(meet)))
        if out != "ok":
            return


for it in range(N):
    run()
print("converged", count)
rec.close()
