"""Time steps of rigid bodies in random worlds: free flight with forces, and worlds with contacts and hinges."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W
import rainbow.simulators.prox_rigid_bodies.steppers as ST

A = W.rigid_api()
rec = Recorder(a.out)
rng = random.Random(a.seed * 1000003 + a.part)
N = 60 if a.tier == "quick" else 1500
S, QS = 1024, 16384
UPS = [(0, 1, 0), (1, 0, 0), (0, 0, 1), (0, -1, 0), (0.6, 0.8, 0), (0, 0.6, -0.8), (2 / 3, -1 / 3, 2 / 3)]


def st(E):
    return [dict(r=frv(b.r, S), q=frv(b.q, QS), v=frv(b.v, S), w=frv(b.w, S)) for b in E.bodies.values()]


def bodies(E):
    out = []
    for b in E.bodies.values():
        fs = []
        for f in b.forces:
            if f.force_type == "Gravity":
                fs.append(dict(kind="Gravity", g=fr(f.g, 4), up=frv(f.up, S), alpha=0, beta=0))
            else:
                fs.append(dict(kind="Damping", g=0, up=[0, 0, 0], alpha=fr(f.alpha, 4), beta=fr(f.beta, 4)))
        out.append(dict(fixed=bool(b.is_fixed), m=fr(b.mass, 1), I=frv(b.inertia, 1), forces=fs,
                        r=frv(b.r, S), q=frv(b.q, QS), v=frv(b.v, S), w=frv(b.w, S)))
    return out


def rq():
    if rng.random() < 0.3:
        return [1, 0, 0, 0]
    if rng.random() < 0.3:
        return rng.choice(W.cube_rotations())[1]
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    return q / np.linalg.norm(q)


def vec(k, p0=0.3):
    return np.zeros(3) if rng.random() < p0 else np.array([rng.randint(-k * 4, k * 4) / 4 for _ in range(3)])


def add_forces(E, every):
    gs = []
    names = []
    for k in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        n = "g%d" % k
        g = rng.randint(1, 24) / 2
        up = np.array(rng.choice(UPS))
        if k == 1 and rng.random() < 0.3:
            g, up = E.forces["g0"].g, -E.forces["g0"].up
        A.create_gravity_force(E, n, g, up)
        names.append(n)
    for k in range(rng.choice([0, 0, 1, 1, 2])):
        n = "d%d" % k
        A.create_damping_force(E, n, rng.randint(1, 12) / 4, rng.randint(1, 8) / 4)
        names.append(n)
    for b in E.bodies:
        for n in rng.sample(names, len(names)):
            if every or rng.random() < 0.6:
                A.connect_force(E, b, n)
    return [dict(g=fr(f.g, 4), up=frv(f.up, S)) for f in E.forces.values() if f.force_type == "Gravity"]


def steps(E, gs, free, energies, n):
    for _ in range(n):
        dn, dd = rng.choice([(1, 16), (1, 32), (1, 64), (3, 64)])
        prof = energies and rng.random() < 0.6
        log0 = len(E.stepper.log)
        if rng.random() < 0.5:
            out, _ = call(E.stepper.step, dn / dd, E, prof)
        else:
            E.params.time_step = dn / dd
            out, _ = call(A.simulate, E, dn / dd, prof)
        log = E.stepper.log[log0:]
        ok = out == "ok" and prof and len(log) == 1
        rec.emit(dict(op="step", dn=dn, dd=dd, free=free, out=out, prof=bool(prof and out == "ok"), gs=gs,
                      ke=fr(log[0].get("kinetic_energy"), S) if ok else OFF, pe=fr(log[0].get("potential_energy"), S) if ok else OFF,
                      bodies=st(E)))
        if out != "ok":
            break


for it in range(N):
    E = W.rigid_engine()
    E.stepper = E.stepper or ST.SemiImplicitStepper()
    nb = rng.randint(1, 4)
    # far apart: no contacts
    for k in range(nb):
        b = W.rigid_box(E, "b%d" % k, rng.choice([(2, 2, 2), (2, 4, 6)]), (30 * (k % 2) - 15 + rng.randint(-1, 1), 30 * (k // 2) - 15, rng.randint(-10, 10)),
                        q=rq(), v=vec(6), w=vec(3), fixed=rng.random() < 0.25)
        b.mass = float(rng.randint(1, 9))
        b.inertia = np.array([2.0, 2.0, 2.0]) * rng.randint(1, 4) if rng.random() < 0.3 else np.array([float(rng.randint(2, 12)) for _ in range(3)])
    if rng.random() < 0.07:
        E.bodies["b0"].mass = 0.0
    every = rng.random() < 0.6
    gs = add_forces(E, every)
    if rng.random() < 0.3:
        E.params.use_pre_stabilization = E.params.use_post_stabilization = True
    rec.begin(bodies=bodies(E))
    steps(E, gs, True, every, rng.randint(1, 4))
    if rng.random() < 0.5:
        b = E.bodies["b%d" % rng.randrange(nb)]
        A.set_spin(E, b.name, vec(3))
        A.set_velocity(E, b.name, vec(5))
        A.set_orientation(E, b.name, np.array(rq()), use_model_frame=False)
        rec.emit(dict(op="poke", bodies=st(E)))
        steps(E, gs, True, every, 2)

for it in range(N // 3):
    # contacts and hinges: the kinematic relation, fixed bodies and energies
    E = W.rigid_engine(8)
    E.stepper = E.stepper or ST.SemiImplicitStepper()
    W.rigid_box(E, "ground", (8, 2, 8), (0, -1, 0), fixed=True, v=vec(2), w=vec(1))
    for k in range(rng.randint(1, 3)):
        W.rigid_box(E, "b%d" % k, rng.choice([(2, 2, 2), (2, 4, 2)]), (rng.randint(-1, 1), 0.99 + 1.98 * k, rng.randint(-1, 1)), q=rq() if rng.random() < 0.3 else None,
                    v=vec(2), w=vec(1), rho=rng.choice([0.25, 0.5, 0.125]))
        E.bodies["b%d" % k].mass = float(rng.randint(1, 6))
        E.bodies["b%d" % k].inertia = np.array([float(rng.randint(2, 8)) for _ in range(3)])
    if rng.random() < 0.5:
        W.rigid_box(E, "h0", (2, 2, 2), (6, 12, 0), w=vec(1), fixed=rng.random() < 0.5)
        W.rigid_box(E, "h1", (2, 2, 2), (9, 12, 0), w=vec(1))
        for n in ("h0", "h1"):
            E.bodies[n].mass, E.bodies[n].inertia = 2.0, np.array([3.0, 2.0, 4.0])
        A.create_hinge(E, "h")
        A.set_hinge(E, "h", "h0", "h1", np.array([7.5, 12, 0]), np.array([0, 0, 1.0]), mode="world")
    gs = add_forces(E, True)
    E.params.use_pre_stabilization = rng.random() < 0.5
    E.params.use_bounce = rng.random() < 0.4
    rec.begin(bodies=bodies(E))
    steps(E, gs, False, True, rng.randint(1, 4))
rec.close()
