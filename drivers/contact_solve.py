"""Contact problems on small worlds: synthetic contacts through the solver's classes, real ones through simulate."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER
import rainbow.simulators.prox_rigid_bodies.collision_detection as CD
import rainbow.simulators.prox_rigid_bodies.state_storage as STORAGE
import rainbow.simulators.prox_rigid_bodies.constraints as PROBLEMS
from rainbow.simulators.prox_rigid_bodies.types import ContactPoint

A = W.rigid_api()
rec = Recorder(a.out, chunk=250)
rng = random.Random(a.seed * 1000003 + a.part)
S = 1024
N = 60 if a.tier == "quick" else 600
ROTS = W.cube_rotations()
MATS = ["default", "iron", "ice", "Rubber"]
NORMALS = [(0, 1, 0), (0, -1, 0), (1, 0, 0), (-1, 0, 0), (0, 0, 1), (0, 0, -1), (0.6, 0.8, 0), (0, -0.6, 0.8), (-0.8, 0, 0.6)]
conv_count = [0, 0]


def rv(lim, q=4):
    return np.array([rng.randint(-lim * q, lim * q) / q for _ in range(3)])


def table(E):
    """Material pairs are given to the library in any order."""
    t = [dict(a="default", b="default", mu4=4, eps4=0)]
    d = E.surfaces_interactions.storage[("default", "default")]
    t[0]["mu4"], t[0]["eps4"] = fx(d.mu[0], 4), fx(d.epsilon, 4)
    pairs = [(x, y) for i, x in enumerate(MATS) for y in MATS[i:] if (x, y) != ("default", "default")]
    for x, y in rng.sample(pairs, rng.randint(0, 4)):
        if rng.random() < 0.5:
            x, y = y, x
        mu4, e4 = rng.choice([0, 0, 1, 2, 4, 6]), rng.choice([0, 0, 1, 2, 4])
        A.create_surfaces_interaction(E, x, y, e4 / 4, np.array([mu4 / 4] * 3))
        t.append(dict(a=x, b=y, mu4=mu4, eps4=e4))
    return t


def world(nb):
    E = W.rigid_engine()
    E.params.absolute_tolerance, E.params.relative_tolerance, E.params.too_small_merit_change = 1e-7, 0.0, 0.0
    E.params.max_iterations = 400
    E.params.use_bounce = rng.random() < 0.4
    E.params.use_pre_stabilization = rng.random() < 0.4
    E.params.gap_reduction = rng.choice([0.25, 0.5, 1.0])
    E.params.min_gap_value = rng.choice([1, 8, 36]) / S
    E.params.max_gap_value = rng.choice([16, 64, 256]) / S
    t = table(E)
    frictionless = rng.random() < 0.3
    if frictionless:
        for i in E.surfaces_interactions.storage.values():
            i.mu[:] = 0
        for x in t:
            x["mu4"] = 0
    g = rng.random() < 0.5
    if g:
        A.create_gravity_force(E, "g", 8.0, np.array([0, 1.0, 0]))
    for k in range(nb):
        n = "b%d" % k
        A.create_rigid_body(E, n)
        b = E.bodies[n]
        b.mass = float(rng.choice([1, 2, 4]))
        b.inertia = np.array([float(rng.choice([1, 2, 4])) for _ in range(3)])
        A.set_position(E, n, rv(2))
        A.set_orientation(E, n, np.array(rng.choice(ROTS)[1]), use_model_frame=False)
        A.set_velocity(E, n, rv(2))
        A.set_spin(E, n, rv(1))
        b.material = rng.choice(MATS)
        if g and rng.random() < 0.7:
            A.connect_force(E, n, "g")
        if rng.random() < 0.25:
            A.set_body_type(E, n, "fixed")
            if rng.random() < 0.7:
                b.v, b.w = np.zeros(3), np.zeros(3)
    if all(b.is_fixed for b in E.bodies.values()):
        A.set_body_type(E, "b0", "free")
    return E, t


def inertia(b):
    R = np.array(qmat(b.q))
    return fxv((R @ np.diag(b.inertia) @ R.T).ravel(), 1, 1e-6)


def bodies(E, u, ext, isc=1):
    out = []
    for k, b in enumerate(E.bodies.values()):
        out.append(dict(fixed=b.is_fixed, m=fx(b.mass), I=inertia(b), r=frv(b.r, S), v=frv(u[6 * k:6 * k + 3], S), w=frv(u[6 * k + 3:6 * k + 6], S),
                        dv=frv(ext[6 * k:6 * k + 3], S), dw=frv(ext[6 * k + 3:6 * k + 6], S), mat=b.material))
    return out


def contacts(E, x):
    idx = {id(b): k + 1 for k, b in enumerate(E.bodies.values())}
    out = []
    for k, c in enumerate(E.contact_points):
        o = dict(A=idx[id(c.bodyA)], B=idx[id(c.bodyB)], p=frv(c.p, S), n=frv(c.n, S), g=fr(c.g, S), x=0, f=0)
        if x is not None:
            o["x"] = fr(x[4 * k], S) if x[4 * k] >= 0 else min(-1, fr(x[4 * k], S))
            o["f"] = fr(np.linalg.norm(x[4 * k + 1:4 * k + 4]), S)
        out.append(o)
    return out


def converged(prb, code):
    """Solved: the solver says so, and not because its R-factors shrank to nothing."""
    try:
        return bool(code == 1 and np.min(prb.r * prb.diag) > 1e-3)
    except Exception:
        return False


def split(du, n):
    return [dict(v=frv(du[6 * k:6 * k + 3], S), w=frv(du[6 * k + 3:6 * k + 6], S)) for k in range(n)]


def params(E, t, dt):
    p = E.params
    return dict(table=t, bounce=p.use_bounce, pre=p.use_pre_stabilization, idt=int(round(1 / dt)), red4=int(round(p.gap_reduction * 4)),
                mingap=fr(p.min_gap_value, S), maxgap=fr(p.max_gap_value, S))


def synthetic():
    nb = rng.randint(2, 4)
    E, t = world(nb)
    names = list(E.bodies)
    K = rng.choice([1, 1, 2, 3, 4])
    E.contact_points = []
    for _ in range(K):
        i, j = rng.sample(range(nb), 2)
        if E.bodies[names[i]].is_fixed and E.bodies[names[j]].is_fixed:
            j = 0 if i != 0 else 1
        p = (E.bodies[names[i]].r + E.bodies[names[j]].r) / 2 + rv(1)
        n = rng.choice(NORMALS if rng.random() < 0.7 else NORMALS[:2])
        E.contact_points.append(ContactPoint(E.bodies[names[i]], E.bodies[names[j]], np.array(p), np.array(n, dtype=float), rng.choice([-128, -32, -9, -2, 0, 4, 50]) / S))
    dt = 1 / rng.choice([16, 32, 64])
    rec.begin()
    st = STORAGE.StateStorage()
    st.copy_from_engine(E)
    prb = PROBLEMS.Contacts()
    log = {}

    def go():
        prb.initialize(dt, st, E)
        SOLVER.solve(E, [prb], log, True, prefix="")
        return prb.finalize_solution()
    out, du = call(go)
    if out != "ok":
        du = np.full(6 * nb, np.nan)
    u, ext = st.u, dt * st.delta_u_ext
    conv = converged(prb, log.get("exitcode"))
    conv_count[0] += conv
    conv_count[1] += 1
    exact = all(abs(abs(c.n).max() - 1) < 1e-12 for c in E.contact_points)
    rec.emit(dict(op="solve", out=out, bodies=bodies(E, u, ext), cs=contacts(E, prb.sol if out == "ok" else None), du=split(du, nb), conv=bool(conv), hasx=out == "ok",
                  exact=exact, **params(E, t, dt)))
    if out == "ok":
        proj = PROBLEMS.PostStabilization(contact_problem=prb)
        log = {}

        def go2():
            proj.initialize(dt=1.0, state=st, engine=E)
            SOLVER.solve(E, [proj], log, True, prefix="q_")
            return proj.finalize_solution()
        out, dr = call(go2)
        if out != "ok":
            dr = np.full(6 * nb, np.nan)
        rec.emit(dict(op="post", out=out, bodies=bodies(E, u, ext), cs=contacts(E, proj.sol if out == "ok" else None), du=split(dr, nb), conv=converged(proj, log.get("q_exitcode")),
                      hasx=out == "ok", exact=exact, **params(E, t, dt)))


BOX = [((2, 2, 2), 0.75), ((2, 4, 2), 0.375), ((4, 2, 2), 0.375), ((4, 1, 4), 0.75)]


def tight(E):
    E.params.absolute_tolerance, E.params.relative_tolerance, E.params.too_small_merit_change = 1e-7, 0.0, 0.0
    E.params.max_iterations = 600


def real():
    """Whole steps of worlds of boxes that touch."""
    E = W.rigid_engine(rng.choice([8, 12]))
    tight(E)
    E.params.use_bounce = rng.random() < 0.3
    E.params.use_pre_stabilization = rng.random() < 0.2
    E.params.use_post_stabilization = rng.random() < 0.5
    t = table(E)
    A.create_gravity_force(E, "g", 8.0, np.array([0, 1.0, 0]))
    floor = rng.random() < 0.7
    if floor:
        W.rigid_box(E, "floor", (8, 2, 8), (0, -1, 0), fixed=True)
    nb = rng.randint(1, 2) if floor else 2
    top = 0.0
    for k in range(nb):
        d, rho = rng.choice(BOX)
        h = d[1] / 2
        r = (rng.randint(-2, 2) / 4, top + h + rng.choice([-0.05, -0.01, 0, 0.02]), rng.randint(-2, 2) / 4)
        W.rigid_box(E, "b%d" % k, d, r, v=rv(1), rho=rho)
        top = r[1] + h
        E.bodies["b%d" % k].material = rng.choice(MATS)
        if floor or rng.random() < 0.5:
            A.connect_force(E, "b%d" % k, "g")
    rec.begin()
    dt = 1 / rng.choice([32, 64])
    for _ in range(2):
        u0 = np.concatenate([np.concatenate([b.v, b.w]) for b in E.bodies.values()])
        ext = np.concatenate([np.concatenate([[0, -8.0 * dt * len(b.forces) * (not b.is_fixed), 0], np.zeros(3)]) for b in E.bodies.values()])
        bs = bodies(E, u0, ext)
        E.params.time_step = dt
        out, _ = call(A.simulate, E, dt, True)
        u1 = np.concatenate([np.concatenate([b.v, b.w]) for b in E.bodies.values()])
        log = E.stepper.log[-1] if out == "ok" else {}
        rec.emit(dict(op="solve", out=out, bodies=bs, cs=contacts(E, None), du=split(u1 - u0 - ext, len(bs)), conv=bool(log.get("exitcode") == 1 and min([c.g for c in E.contact_points], default=0) > -0.08), hasx=False, exact=False, **params(E, t, dt)))
        # lattice state again: without spin and in an axis-aligned pose
        for b in E.bodies.values():
            b.v, b.w, b.q = np.round(b.v * 4) / 4, np.zeros(3), np.array([1.0, 0, 0, 0]) if abs(b.q[0]) > 0.99 else b.q
        if any(abs(b.q[0]) <= 0.99 for b in E.bodies.values()):
            break


def flat():
    E = W.rigid_engine(rng.choice([8, 12, 16]))
    tight(E)
    p = E.params
    d, rho = BOX[0] if rng.random() < 0.6 else BOX[3]
    dt = 1 / rng.choice([32, 64])
    p.time_step = dt
    e4, mu4 = rng.choice([0, 0, 1, 2, 4]), rng.choice([0, 0, 1, 2])
    p.use_bounce = rng.random() < 0.5
    p.use_pre_stabilization = rng.random() < 0.4
    p.use_post_stabilization = rng.random() < 0.4
    p.gap_reduction = rng.choice([0.25, 0.5, 1.0])
    p.min_gap_value, p.max_gap_value = rng.choice([1, 8, 36]) / S, rng.choice([16, 64, 256]) / S
    ax, sg = rng.randrange(3), rng.choice([-1, 1])
    up = np.zeros(3)
    up[ax] = sg
    tx = np.zeros(3)
    tx[(ax + rng.choice([1, 2])) % 3] = rng.choice([-1, 1])
    side = np.cross(up, tx)
    fd, bd = [8.0] * 3, [float(max(d))] * 3
    fd[ax], bd[ax] = 2.0, float(min(d))
    # the box: two equal sides on the floor
    W.rigid_box(E, "floor", tuple(fd), -up, fixed=True)
    gap = -rng.choice([4, 16, 40, 60]) / S
    vn, vt = -rng.randint(0, 8) / 4, rng.randint(-8, 8) / 4
    W.rigid_box(E, "box", tuple(bd), up * (bd[ax] / 2 + gap), v=up * vn + tx * vt, rho=rho)
    mats = rng.sample(["default", "x", "a"], 2)
    E.bodies["floor"].material, E.bodies["box"].material = mats
    A.create_surfaces_interaction(E, mats[1], mats[0], e4 / 4, np.array([mu4 / 4] * 3))
    g = rng.choice([0, 8])
    if g:
        A.create_gravity_force(E, "g", float(g), up)
        A.connect_force(E, "box", "g")
    r0 = np.copy(E.bodies["box"].r)
    b = E.bodies["box"]
    # contacts at the four corners, exactly flat, instead of those the distance fields give
    called = []

    def corners(engine, profile_data, profiling_on):
        called.append(1)
        p0 = b.r - up * (bd[ax] / 2)
        o1, o2 = tx * bd[int(np.argmax(np.abs(tx)))] / 2, side * bd[int(np.argmax(np.abs(side)))] / 2
        pts = [p0 + i * o1 + j * o2 for i in (-1, 1) for j in (-1, 1)]
        rng.shuffle(pts)
        order = rng.random() < 0.5
        engine.contact_points = [ContactPoint(E.bodies["floor"], b, q, up, gap) if order else ContactPoint(b, E.bodies["floor"], q, -up, gap) for q in pts]
    orig, CD.run_collision_detection = CD.run_collision_detection, corners
    try:
        out, _ = call(A.simulate, E, dt, True)
    finally:
        CD.run_collision_detection = orig
    if len(called) != 1:
        return
    rec.begin()
    rec.emit(dict(op="flat", out=out, du=[], q=dict(g=fr(gap, S), vn=fr(vn, S), vt=fr(vt, S), a=-fr(g * dt, S), e4=e4 if p.use_bounce else 0, mu4=mu4, pre=p.use_pre_stabilization, post=p.use_post_stabilization,
                  idt=int(round(1 / dt)), red4=int(round(p.gap_reduction * 4)), mingap=fr(p.min_gap_value, S), maxgap=fr(p.max_gap_value, S)),
                  vn=fr(b.v @ up, S), vt=fr(b.v @ tx, S), side=fr(b.v @ side, S), spin=fr(np.abs(b.w).max(), S), dn=fr((b.r - r0) @ up, S)))


for it in range(N // 4):
    real()
    flat()
    flat()
for it in range(N):
    for _ in range(6):
        synthetic()
print("converged", conv_count)
rec.close()
