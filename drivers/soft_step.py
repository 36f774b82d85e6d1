"""Steps of real soft bodies without contact, from states on an integer lattice; assembled matrices and energies."""
import itertools, random
from vlib import *
a = args()
import numpy as np
from worlds import soft_engine, soft_api
import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_soft_bodies.mechanics as MECH
import rainbow.simulators.prox_soft_bodies.solver as SOLVER
import rainbow.simulators.prox_soft_bodies.collision_detection as CD
from rainbow.simulators.prox_soft_bodies.types import ContactPoint
API = soft_api()
rng = random.Random(a.seed * 7919 + a.part)
c = rng.choice
L = lambda X: np.asarray(X).astype(int).tolist()
DT = 1 / 16


def v6(x, T):
    return [int(round(np.dot(np.cross(x[t[1]] - x[t[0]], x[t[2]] - x[t[0]]), x[t[3]] - x[t[0]]))) for t in T]


def mesh():
    t = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    k = rng.randrange(5)
    if k == 0:
        return t, np.array([[0, 1, 2, 3]])
    if k == 1:
        return np.vstack([t, [[1, 1, 1]]]), np.array([[0, 1, 2, 3], [1, 2, 3, 4]])
    V, T = VM.create_beam(*([2, 2, 2, 1, 1, 1] if k < 4 else [3, 2, 2, 2, 1, 1]))
    V = np.round(V - V.min(axis=0))
    assert all(v in (1, 2) for v in v6(V, T))
    return V, T


def imat(n=2):
    """a random integer matrix of determinant 1"""
    M = np.eye(3, dtype=int)
    for _ in range(rng.randint(0, n)):
        E = np.eye(3, dtype=int)
        i, j = rng.sample(range(3), 2)
        E[i, j] = c([-1, 1])
        M = M @ E
    return M


ROTS = [np.array(R).reshape(3, 3) for R, q in cube_rotations()]
ivec = lambda k=4: np.array([rng.randint(-k, k) for _ in range(3)], dtype=float)


class World:
    def __init__(self):
        self.E = soft_engine(3)
        self.E.params.use_spatial_hashing = rng.random() < .5
        self.E.params.time_step = DT
        self.m = {}
        self.n = 0
        self.plain = {}
        for k in ["m1", "m2"]:
            API.create_material(self.E, k)
        for k in ["default", "m1", "m2"]:
            self.material(k)

    def material(self, k):
        la, mu, rho, vis = rng.randint(0, 4), rng.randint(1, 4), rng.randint(1, 3), rng.randint(0, 3)
        self.m[k] = [la, mu, rho, vis]
        API.set_elasticity(self.E, k, mu * (3 * la + 2 * mu) / (la + mu), la / (2 * (la + mu)))
        API.set_mass_density(self.E, k, rho)
        API.set_viscosity(self.E, k, vis)
        API.set_constitutive_model(self.E, k, MECH.SVK)

    def add(self):
        self.n += 1
        n = "b%d" % self.n
        V, T = mesh()
        self.plain[n] = rng.random() < .5                 # unsheared: faces of integer area
        if not self.plain[n]:
            V = V @ imat(3).T
        V = V + np.array([60.0 * self.n, 0, 0]) + ivec()
        API.create_soft_body(self.E, n, V, T)
        API.set_material(self.E, n, c(list(self.m)))
        API.set_gravity(self.E, n, ivec(10))
        self.deform(n)

    def deform(self, n):
        b = self.E.bodies[n]
        held = {i for d in b.dirichlet_conditions for i in [d.idx]} | {i for t in b.traction_conditions for i in (t.i, t.j, t.k)}
        off = b.x0[0]
        for _ in range(30):
            x = b.x0.copy()
            if rng.random() < .7:
                if b.traction_conditions:
                    M, s = c(ROTS) @ np.diag([c([1, 1, 2, 3]) for _ in range(3)]), ivec()
                elif b.dirichlet_conditions:
                    M, s = np.eye(3), np.zeros(3)
                else:
                    M, s = c(ROTS) @ imat(2) @ np.diag([c([1, 1, 2]) for _ in range(3)]), ivec()
                x = (x - off) @ M.T + off + s
            for i in range(len(x)):
                if i not in held and rng.random() < .5:
                    x[i] += ivec(1)
            if b.dirichlet_conditions and rng.random() < .5:      # held nodes are put back before forces are evaluated
                for d in b.dirichlet_conditions:
                    x[d.idx] += ivec(2)
            y = x.copy()
            for d in b.dirichlet_conditions:
                y[d.idx] = d.value
            if min(v6(y, b.T)) > 0 or rng.random() < .02:
                sq = [np.dot(k, k) for t in b.traction_conditions for k in [np.cross(y[t.j] - y[t.i], y[t.k] - y[t.i])]]
                if all(round(s ** .5) ** 2 == s for s in sq):
                    break
        else:
            x = b.x0.copy()
        API.set_spatial_coordinates(self.E, n, x)
        if rng.random() < .5:
            API.set_velocity(self.E, n, ivec(6))
        else:
            b.u = np.array([ivec(6) for _ in b.x0])

    def body(self, b):
        la, mu, rho, vis = self.m[b.material_description.name]
        return dict(V=[fxv(p) for p in b.x0], T=L(b.T), fixed=bool(b.is_fixed), lumped=bool(b.is_lumped), dir=[dict(i=int(d.idx), v=fxv(d.value)) for d in b.dirichlet_conditions],
                    trac=[dict(t=[int(t.i), int(t.j), int(t.k)], l=fxv(t.traction)) for t in b.traction_conditions], la=la, mu=mu, rho=rho, c=vis,
                    g=fxv(b.gravity), x=[fxv(p) for p in b.x], u=[fxv(p) for p in b.u], mat=b.material_description.name, off=int(b.offset))

    def bodies(self):
        return [self.body(b) for b in self.E.bodies.values()]

    def calm(self):
        """Bodies that touch themselves are moved: a step with contact is decided elsewhere (S05, S06)."""
        E = self.E
        for k in range(8):
            out, _ = call(CD.run_collision_detection, E, {}, False)
            if out == "ok" and not E.contact_points:
                return
            for n, b in E.bodies.items():
                if k < 6:
                    self.deform(n)
                else:
                    API.set_spatial_coordinates(E, n, b.x0.copy())
        E.contact_points = []

    def step(self):
        E = self.E
        self.calm()
        ev = dict(op="step", bodies=self.bodies())
        before = [(b.x.copy(), b.u.copy()) for b in E.bodies.values()]
        debug = rng.random() < .4
        n = len(E.stepper.log) if E.stepper is not None else 0
        out, _ = call(API.simulate, E, DT, debug)
        ev["out"] = out
        ev["same"] = all((b.x == x).all() and (b.u == u).all() for b, (x, u) in zip(E.bodies.values(), before))
        ev["logs"], ev["debug"] = True, debug
        ev["up"] = all(np.dot(np.cross(b.x[t[1]] - b.x[t[0]], b.x[t[2]] - b.x[t[0]]), b.x[t[3]] - b.x[t[0]]) > 0 for b in E.bodies.values() for t in b.T)
        after = []
        for b, d in zip(E.bodies.values(), ev["bodies"]):
            star = [0] * len(b.x0)
            for t, v in zip(d["T"], v6(b.x0, b.T)):
                for i in t:
                    star[i] += v
            w = [d["rho"] * s for s in star]
            R = lambda X, s: [fxv(p, s) for p in X] if X is not None else []
            after.append(dict(w=w, x0=R(b.x0, 1), u=[fxv(p, 320 * k) for p, k in zip(b.u, w)], x=[fxv(p, 5120 * k) for p, k in zip(b.x, w)],
                              ur=[frv(p, 16384) for p in b.u] if not d["lumped"] else [], xr=[frv(p, 16384) for p in b.x] if not d["lumped"] else [],
                              fe=R(b.Fe, 96), ft=R(b.Ft, 6), fd=R(b.Fd, 120), fg=R(b.Fext, 24)))
        ev["after"] = after
        if out == "ok" and debug:
            lg = E.stepper.log[-1]
            val = lambda f: f(E, {}, False)
            ev["logs"] = bool(lg["kinetic_energy"] == val(SOLVER.compute_kinetic_energy) and lg["potential_energy"] == val(SOLVER.compute_potential_energy)
                              and lg["elastic_energy"] == val(SOLVER.compute_elastic_energy) and lg["contact_points"] == 0 and lg["max_penetration"] == 0 and lg["dt"] == DT
                              and len(E.stepper.log) > n)
        rec.emit(ev)
        for n in E.bodies:
            self.deform(n)

    def energy(self):
        E = self.E
        if any(min(v6(b.x, b.T)) <= 0 for b in E.bodies.values()):
            return
        ev = dict(op="energy", bodies=self.bodies())
        for k, f, s in [("ke", SOLVER.compute_kinetic_energy, 192), ("pe", SOLVER.compute_potential_energy, 24), ("ee", SOLVER.compute_elastic_energy, 768)]:
            out, v = call(f, E, {}, c([True, False]))
            ev[k] = fx(v, s) if out == "ok" else OFF
        rec.emit(ev)

    def assemble(self):
        E = self.E
        B = list(E.bodies.values())
        if len(B) < 2:
            return
        ev = dict(op="assemble", bodies=self.bodies(), inter=[dict(a=k[0], b=k[1], mu=fx(x.mu[0], 4)) for k, x in E.surfaces_interactions.storage.items()])
        E.contact_points = []
        cs = []
        for _ in range(rng.randint(1, 3)):
            i, j = rng.sample(range(len(B)), 2)
            n = np.array(c([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, -1, 0], [-1, 0, 0], [3, 4, 0], [0, -4, 3], [2, -1, 2], [-2, 6, 3], [1, -4, 8], [0, 0, -1]]), dtype=float)
            ln = int(round(np.linalg.norm(n)))
            ta, tb = rng.randrange(len(B[i].T)), rng.randrange(len(B[j].T))
            wa, wb = c([[1, 1, 1, 1], [4, 0, 0, 0], [2, 1, 1, 0], [0, 0, 3, 1], [1, 0, 0, 3]]), c([[1, 1, 1, 1], [0, 0, 0, 4], [1, 1, 0, 2], [3, 1, 0, 0], [0, 1, 3, 0]])
            g = rng.randint(-5, 5)
            E.contact_points.append(ContactPoint(B[i], B[j], ta, tb, np.array(wa) / 4.0, np.array(wb) / 4.0, np.zeros(3), n / ln, g / 8.0))
            cs.append(dict(a=i + 1, b=j + 1, ta=ta + 1, tb=tb + 1, wa=wa, wb=wb, n=L(n), len=ln, g=g))
        ev["contacts"] = cs

        def f():
            d = c([True, False])
            return SOLVER.compute_mass_matrix(E, {}, d), SOLVER.compute_jacobian_matrix(E, {}, d), SOLVER.get_friction_coefficient_vector(E), SOLVER.get_largest_penetration_error(E)
        ev["out"], r = call(f)
        ev.update(M=[], J=[], mu=[], pen=OFF)
        if r is not None:
            M, J = r[0].toarray(), r[1].toarray()
            N = M.shape[0] // 3
            M = M.reshape(N, 3, N, 3).transpose(0, 2, 1, 3)
            ev["M"] = [[fx(M[i, j, 0, 0], 120) if np.allclose(M[i, j], M[i, j, 0, 0] * np.eye(3)) else OFF for j in range(N)] for i in range(N)]
            ev["J"] = [[frv(row[3 * n:3 * n + 3], 4 * 4096) for n in range(J.shape[1] // 3)] for row in J]
            ev["mu"], ev["pen"] = fxv(r[2], 4), fx(r[3], 8)
        E.contact_points = []
        rec.emit(ev)


rec = Recorder(a.out, "s%d_" % a.part, chunk=40)
for _ in range({"quick": 96, "thorough": 1200}[a.tier] // a.parts):
    w = World()
    rec.begin()
    E = w.E
    for _ in range(rng.randint(1, 3)):
        w.add()
    for _ in range(rng.randint(5, 9)):
        k = rng.randrange(12)
        n = c(list(E.bodies))
        b = E.bodies[n]
        if k == 0 and len(E.bodies) < 4:
            w.add()
        elif k == 1:
            w.material(c(list(w.m)))
        elif k == 2:
            API.set_material(E, n, c(list(w.m)))
        elif k == 3:
            API.set_type(E, n, c(["fixed", "free", "free"]))
        elif k in (4, 5) and not b.traction_conditions:
            o, ax, s = b.x0.min(axis=0), rng.randrange(3), c([0, 0, 1])
            API.create_dirichlet_conditions(E, n, (lambda p: p[ax] - o[ax] - s) if rng.random() < .8 else (lambda p: -1))
            w.deform(n)
        elif k in (6, 7) and w.plain[n] and not b.dirichlet_conditions:
            o, ax = b.x0.max(axis=0), rng.randrange(3)
            API.create_traction_conditions(E, n, lambda p: o[ax] - p[ax] if o[ax] - b.x0.min(axis=0)[ax] == 1 else 1, ivec(5))
            w.deform(n)
        elif k == 8:
            b.is_lumped = not b.is_lumped
            API.set_material(E, n, b.material_description.name)
        elif k == 9 or k == 10:
            for _ in range(2):
                x, y = c(list(w.m)), c(list(w.m))
                call(API.create_surfaces_interaction, E, x, y, rng.randint(0, 7) / 4.0)
            w.assemble()
        else:
            API.set_gravity(E, n, ivec(10))
        if rng.random() < .4:
            w.energy()
        w.step()
rec.close()
