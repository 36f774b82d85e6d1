"""Hinge problems on small worlds, single solves and long runs."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER
import rainbow.simulators.prox_rigid_bodies.state_storage as STORAGE
import rainbow.simulators.prox_rigid_bodies.constraints as PROBLEMS

A = W.rigid_api()
rec = Recorder(a.out, chunk=250)
rng = random.Random(a.seed * 1000003 + a.part)
S = 1024
N = 150 if a.tier == "quick" else 1200
ROTS = W.cube_rotations()
AXES = [(0, 1, 0), (0, 0, -1), (1, 0, 0), (0.6, 0.8, 0), (0, -0.6, 0.8), (0.8, 0, 0.6)]
conv_count = [0, 0]


def rv(lim, q=4):
    return np.array([rng.randint(-lim * q, lim * q) / q for _ in range(3)])


def rot(q, x):
    return np.array(qmat(q)) @ np.asarray(x, dtype=float)


def inertia(b):
    R = np.array(qmat(b.q))
    return frv((R @ np.diag(b.inertia) @ R.T).ravel(), 1)


def bodies(E, u, ext):
    return [dict(fixed=b.is_fixed, m=fx(b.mass), I=inertia(b), r=frv(b.r, S), v=frv(u[6 * k:6 * k + 3], S), w=frv(u[6 * k + 3:6 * k + 6], S),
                 dv=frv(ext[6 * k:6 * k + 3], S), dw=frv(ext[6 * k + 3:6 * k + 6], S), mat="") for k, b in enumerate(E.bodies.values())]


def world(nb, nh):
    E = W.rigid_engine()
    E.params.absolute_tolerance, E.params.relative_tolerance, E.params.too_small_merit_change = 1e-7, 0.0, 0.0
    E.params.max_iterations = 500
    for k in range(nb):
        n = "b%d" % k
        A.create_rigid_body(E, n)
        b = E.bodies[n]
        b.mass, b.inertia = float(rng.choice([1, 2, 4])), np.array([float(rng.choice([1, 2, 4]))] * 3)
        if rng.random() < 0.5:
            b.inertia = np.array([float(rng.choice([1, 2, 4])) for _ in range(3)])
        A.set_position(E, n, rv(2))
        A.set_orientation(E, n, np.array(rng.choice(ROTS)[1]), use_model_frame=False)
    names = list(E.bodies)
    rng.shuffle(names)
    ends = []
    for k in range(nh):
        i = rng.randrange(k + 1)
        p, c = names[i], names[k + 1]
        if rng.random() < 0.5:
            p, c = c, p
        h = "h%d" % k
        A.create_hinge(E, h)
        o = (E.bodies[p].r + E.bodies[c].r) / 2 + rv(1)
        A.set_hinge(E, h, p, c, np.array(o), np.array(rng.choice(AXES), dtype=float), mode="world")
    if rng.random() < 0.4:
        A.set_body_type(E, names[0], "fixed")
    return E, names


def frames(E):
    out = []
    for h in E.hinges.values():
        P, C = h.parent, h.child
        out.append((rot(P.q, h.arm_p) + P.r, rot(C.q, h.arm_c) + C.r, rot(P.q, h.axis_p), rot(C.q, h.axis_c)))
    return out


def hinges(E):
    idx = {id(b): k + 1 for k, b in enumerate(E.bodies.values())}
    return [dict(A=idx[id(h.parent)], B=idx[id(h.child)], pA=frv(f[0], S), pB=frv(f[1], S), nA=frv(f[2], S), nB=frv(f[3], S))
            for h, f in zip(E.hinges.values(), frames(E))]


def single():
    nb = rng.randint(2, 4)
    nh = rng.choice([1, 1, nb - 1])
    E, names = world(nb, nh)
    if rng.random() < 0.5:
        A.create_gravity_force(E, "g", 8.0, np.array([0, 1.0, 0]))
        for n in names:
            if rng.random() < 0.7:
                A.connect_force(E, n, "g")
    for n in names:
        A.set_velocity(E, n, rv(2))
        A.set_spin(E, n, rv(1))
        if E.bodies[n].is_fixed and rng.random() < 0.7:
            E.bodies[n].v, E.bodies[n].w = np.zeros(3), np.zeros(3)
    E.params.use_pre_stabilization = rng.random() < 0.6
    E.params.gap_reduction = rng.choice([0.25, 0.5, 1.0])
    if rng.random() < 0.6:       # drift apart
        for n in names:
            E.bodies[n].r = E.bodies[n].r + np.array([rng.randint(-64, 64) / S for _ in range(3)])
    dt = 1 / rng.choice([16, 32])
    st = STORAGE.StateStorage()
    st.copy_from_engine(E)
    prb = PROBLEMS.Hinges()
    log = {}

    def go():
        prb.initialize(dt, st, E)
        SOLVER.solve(E, [prb], log, True, prefix="")
        return prb.finalize_solution()
    rec.begin()
    out, du = call(go)
    du = du if out == "ok" else np.full(6 * nb, np.nan)
    try:
        conv = bool(log.get("exitcode") == 1 and np.min(prb.r * prb.diag) > 1e-3)
    except Exception:
        conv = False
    conv_count[0] += conv
    conv_count[1] += 1
    rec.emit(dict(op="hinge", out=out, bodies=bodies(E, st.u, dt * st.delta_u_ext), hs=hinges(E), conv=conv, pre=E.params.use_pre_stabilization, idt=int(round(1 / dt)),
                  red4=int(round(E.params.gap_reduction * 4)), du=[dict(v=frv(du[6 * k:6 * k + 3], S), w=frv(du[6 * k + 3:6 * k + 6], S)) for k in range(nb)]))


def errors(E):
    f = frames(E)
    return max(np.linalg.norm(x[0] - x[1]) for x in f), max(np.linalg.norm(np.cross(x[2], x[3])) if x[2] @ x[3] > 0 else 2.0 for x in f)


def chain():
    """Boxes on hinges, simulated."""
    E = W.rigid_engine()
    E.params.absolute_tolerance, E.params.relative_tolerance, E.params.too_small_merit_change = 1e-7, 0.0, 0.0
    E.params.max_iterations = 300
    nb = rng.randint(2, 3)
    for k in range(nb):
        W.rigid_box(E, "b%d" % k, (1, 2, 1), (0, -4.0 * k, 0), rho=rng.choice([0.5, 1, 2]), fixed=(k == 0 and rng.random() < 0.7))
        if k:
            A.create_hinge(E, "h%d" % k)
            pc = ("b%d" % (k - 1), "b%d" % k)
            A.set_hinge(E, "h%d" % k, *(pc if rng.random() < 0.5 else pc[::-1]), np.array([0, 2 - 4.0 * k, 0]), np.array(rng.choice([(0, 0, 1), (1, 0, 0), (0, 1, 0), (0.6, 0, 0.8)]), dtype=float), mode="world")
    return E


def drift():
    E = chain()
    A.create_gravity_force(E, "g", 8.0, np.array([0, 1.0, 0]))
    for n, b in E.bodies.items():
        A.connect_force(E, n, "g")
        if not b.is_fixed:
            A.set_velocity(E, n, rv(1) / 2)
            A.set_spin(E, n, rv(1) / 2)
    E.params.use_pre_stabilization = True
    E.params.time_step = 1 / 128
    fixed0 = [np.copy(b.r) for b in E.bodies.values() if b.is_fixed]
    rec.begin()
    out, _ = call(A.simulate, E, 40 / 128 if a.tier == "quick" else 1.0, False)
    g, t = errors(E)
    rec.emit(dict(op="drift", out=out, gap=fr(g, S), tilt=fr(t, S), bound=60,
                  fixedmoved=bool(any(not np.array_equal(x, y) for x, y in zip(fixed0, [b.r for b in E.bodies.values() if b.is_fixed])))))


def heal():
    E = chain()
    while len(E.hinges) > 1:
        E = chain()
    E.params.use_pre_stabilization = True
    E.params.gap_reduction = rng.choice([0.25, 0.5, 0.75, 1.0])
    b = E.bodies["b1"]
    b.r = b.r + rv(1) / 16
    ax = rv(1)
    n = np.linalg.norm(ax)
    if n > 0 and rng.random() < 0.7:
        th = rng.choice([0.02, 0.05])
        q = qmul([math.cos(th / 2), *(math.sin(th / 2) * ax / n)], list(b.q))
        b.q = np.array(q)
    g0, t0 = errors(E)
    rec.begin()
    dt = rng.choice([1 / 64, 1 / 100])
    E.params.time_step = dt
    out, _ = call(A.simulate, E, dt, False)
    g1, t1 = errors(E)
    rec.emit(dict(op="heal", out=out, gap0=fr(g0, S), tilt0=fr(t0, S), gap1=fr(g1, S), tilt1=fr(t1, S), red4=int(round(4 * E.params.gap_reduction))))


for it in range(N):
    single()
    if it % 6 == 0:
        heal()
    if it % 30 == 0:
        drift()
print("converged", conv_count)
rec.close()
