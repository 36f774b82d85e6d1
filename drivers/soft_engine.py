"""Calls on a real soft-body engine: behaviours generated by TLC from SoftEngine, and seeded random histories."""
import json, random
from vlib import *
a = args()
import numpy as np
from worlds import soft_engine, tet_box, soft_api
import rainbow.simulators.prox_soft_bodies.mechanics as MECH
API = soft_api()
MODELS = {"SVK": MECH.SVK, "COR": MECH.COR, "SNH": MECH.SNH}
L = lambda X: np.asarray(X).astype(int).tolist()


def meshes():
    t = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    e = np.array([[0, 1, 2, 3]])
    out = [(t, e), (t * [2, 5, 3] + [4, -3, 1], e),
           (np.vstack([t, [[2, 3, 4]]]), np.array([[0, 1, 2, 3], [1, 2, 3, 4]]))]
    out += [tet_box((1, 1, 1), (2, 1, 3), (-1, 0, 2)), tet_box((1, 3, 1), (1, 2, 1)), tet_box((2, 1, 1), (3, 1, 1), (5, 5, 5))]
    return out


MESHES = meshes()
BAD = [(MESHES[0][0], np.array([[1, 0, 2, 3]])), (np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]], dtype=float), np.array([[0, 1, 2, 3]])),
       (MESHES[2][0], np.array([[0, 1, 2, 3], [2, 1, 3, 4]]))]


def rows(A, b):
    """24 x row sums of an element matrix array, per node (OFF when the three coordinates disagree or are coupled)"""
    A = np.asarray(A, dtype=float)
    out = np.zeros((len(b.x0), 3, 3))
    for e in range(len(b.T)):
        for i in range(4):
            out[b.T[e, i]] += A[e, i].sum(axis=0)
    return [fx(m[0, 0], 24) if np.allclose(m, m[0, 0] * np.eye(3), atol=1e-9) else OFF for m in out]


def project(E):
    bodies = []
    for b in E.bodies.values():
        bodies.append(dict(name=b.name, idx=b.idx if isinstance(b.idx, int) else -1, off=int(b.offset), x0=[fxv(p) for p in b.x0], T=L(b.T), S=L(b.surface),
                           mat=b.material_description.name if b.material_description is not None else "", fixed=bool(b.is_fixed), g=fxv(b.gravity, 100),
                           x=[fxv(p) for p in b.x], u=[fxv(p) for p in b.u], dir=[dict(i=int(c.idx), v=fxv(c.value)) for c in b.dirichlet_conditions],
                           trac=[dict(t=[int(c.i), int(c.j), int(c.k)], l=fxv(c.traction)) for c in b.traction_conditions],
                           m24=rows(b.M_array, b) if b.M_array is not None else [], c24=rows(b.C_array, b) if b.C_array is not None else []))
    mats = [dict(name=m.name, E=fx(m.E), nu=fx(m.nu, 10), c=fx(m.c), rho=fx(m.rho),
                 model=next((k for k, v in MODELS.items() if v is m.constitutive_model), "?")) for m in E.materials.values()]
    inter = [dict(a=k[0], b=k[1], mu=fx(x.mu[0], 4)) for k, x in E.surfaces_interactions.storage.items()]
    pairs = []
    for m in E.materials:
        r = []
        for k in E.materials:
            o, i = call(E.surfaces_interactions.get_interaction, m, k)
            r.append(fx(i.mu[0], 4) if o == "ok" and i is not None else OFF)
        pairs.append(r)
    shared = all(k == b.name for k, b in E.bodies.items()) and all(k == m.name for k, m in E.materials.items()) and \
        all(b.material_description is None or b.material_description is E.materials.get(b.material_description.name) for b in E.bodies.values())
    return dict(bodies=bodies, mats=mats, inter=inter, pairs=pairs, nodes=int(E.number_of_nodes), shared=bool(shared))


def scribble(x):
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x += 7


def run(E, o):
    ev = dict(o)
    op = o["op"]
    args, val, out, name = [], None, None, None
    f3 = lambda v: np.array(v, dtype=float)
    S = E.surfaces_interactions
    if op == "create_body":
        V, T = BAD[o["mesh"] - 9] if o["mesh"] >= 9 else MESHES[o["mesh"]]
        args = [V.copy(), T.copy()]
        ev.update(V=[fxv(p) for p in V], T=L(T), x0=[], T0=[], S=[], own=[], nb=[])
        had = o["n"] in E.bodies
        name = API.create_soft_body, (E, o["n"], *args)
    elif op in ("dirichlet", "traction"):
        phi = lambda p: o["s"] * p[o["ax"] - 1] - o["lim"]
        if op == "dirichlet":
            name = API.create_dirichlet_conditions, (E, o["b"], phi)
        else:
            args = [f3(o["load"])] if o["arr"] else []
            name = API.create_traction_conditions, (E, o["b"], phi, args[0] if args else list(map(float, o["load"])))
    elif op == "set_velocity":
        args = [f3(o["v"])]
        name = API.set_velocity, (E, o["b"], args[0])
    elif op == "set_spatial":
        args = [f3(o["x"])]
        name = API.set_spatial_coordinates, (E, o["b"], args[0])
    elif op == "set_type":
        name = API.set_type, (E, o["b"], o["t"])
    elif op == "set_gravity":
        args = [f3(o["g"]) / 100.0]
        name = API.set_gravity, (E, o["b"], args[0])
    elif op == "set_material":
        name = API.set_material, (E, o["b"], o["m"])
    elif op == "create_material":
        name = API.create_material, (E, o["m"])
    elif op == "set_elasticity":
        name = API.set_elasticity, (E, o["m"], o["E"], o["nu"] / 10.0)
    elif op == "set_viscosity":
        name = API.set_viscosity, (E, o["m"], o["c"])
    elif op == "set_density":
        name = API.set_mass_density, (E, o["m"], o["rho"])
    elif op == "set_model":
        name = API.set_constitutive_model, (E, o["m"], MODELS.get(o["model"], dict))
    elif op == "create_inter":
        name = API.create_surfaces_interaction, (E, o["a"], o["b"], o["mu"] / 4.0)
    elif op == "get_material":
        out, v = call(API.get_material_coordinates, E, o["b"])
        ev["val"] = [fxv(p) for p in v] if out == "ok" else []
        scribble(v)
    elif op == "get_inter":
        out, x = call(S.get_interaction, o["a"], o["b"])
        ev["val"] = fx(x.mu[0], 4) if out == "ok" and x is not None else OFF
    elif op == "exist_inter":
        out, x = call(S.exist_interaction, o["a"], o["b"])
        ev["val"] = bool(x)
    elif op == "exist_material":
        out, x = call(S.exist_material, o["m"])
        ev["val"] = bool(x)
    else:
        raise SystemExit("unknown op " + op)
    ev["frozen"] = True
    if name is not None:
        keep = [x.copy() for x in args]
        out, _ = call(name[0], *name[1])
        ev["frozen"] = all((x == k).all() for x, k in zip(args, keep))
        for x in args:
            scribble(x)
    if op == "create_body" and out == "ok" and not had and o["n"] in E.bodies:
        b = E.bodies[o["n"]]
        ev.update(x0=[fxv(p) for p in b.x0], T0=L(b.T), S=L(b.surface), own=L(b.owners), nb=L(b.neighbors))
    ev["out"] = out
    ev["eng"] = project(E)
    return ev


def histories():
    if a.scripts:
        for i, line in enumerate(open(a.scripts)):
            if i % a.parts == a.part:
                yield json.loads(line)
    rng = random.Random(a.seed * 1000003 + a.part)
    n = {"quick": 120, "thorough": 1600}[a.tier]
    for _ in range(n // a.parts):
        yield random_history(rng)


def random_history(rng):
    B, M = ["b1", "b2", "b3"], ["default", "m1", "m2", "aa"]
    c = rng.choice
    vec = lambda k=3: [rng.randint(-9, 9) for _ in range(k)]
    ev, sizes = [], {}

    def body(n):
        k = rng.randrange(len(MESHES)) if rng.random() < .8 else 9 + rng.randrange(len(BAD))
        if k < 9:
            sizes.setdefault(n, len(MESHES[k][0]))
        return dict(op="create_body", n=n, mesh=k)
    W = dict(create_body=2, dirichlet=3, traction=3, set_velocity=3, set_spatial=3, set_type=3, set_gravity=3, set_material=5, create_material=2,
             set_elasticity=3, set_viscosity=4, set_density=4, set_model=3, create_inter=4, get_material=2, get_inter=4, exist_inter=2, exist_material=2)
    for n in B[:2]:
        ev.append(body(n))
    for m in M[1:3]:
        if rng.random() < .7:
            ev.append(dict(op="create_material", m=m))
    for k in rng.sample(sorted(W), 4):
        W[k] *= 5
    W["create_body"] = min(W["create_body"], 4)
    kinds = [k for k, w in W.items() for _ in range(w)]
    for _ in range(rng.randint(15, 35)):
        op = c(kinds)
        o = dict(op=op)
        if op == "create_body":
            o = body(c(B))
        elif op in ("dirichlet", "traction"):
            o.update(b=c(B), ax=rng.randint(1, 3), s=c([1, -1]), lim=rng.randint(-3, 5))
            if op == "traction":
                o.update(load=vec(), arr=rng.random() < .85)
        elif op == "set_velocity": o.update(b=c(B), v=vec(c([3, 3, 3, 2, 4])))
        elif op == "set_spatial":
            b = c(B)
            n = sizes.get(b, 4) if rng.random() < .8 else 3
            o.update(b=b, x=[vec() for _ in range(n)])
        elif op == "set_type": o.update(b=c(B), t=c(["fixed", "Fixed", "FIXED", "free", "Free", "FREE", "static", "", "fixe", "freee"]))
        elif op == "set_gravity": o.update(b=c(B), g=vec(c([3, 3, 3, 2, 4])))
        elif op == "set_material": o.update(b=c(B), m=c(M))
        elif op == "create_material": o.update(m=c(M))
        elif op == "set_elasticity": o.update(m=c(M), E=c([-1, 0, 1, 50, 200]), nu=c([-1, 0, 2, 4, 5, 6]))
        elif op == "set_viscosity": o.update(m=c(M), c=c([-1, 0, 3, 8]))
        elif op == "set_density": o.update(m=c(M), rho=c([-1, 0, 7, 2]))
        elif op == "set_model": o.update(m=c(M), model=c(["SVK", "COR", "SNH", "bad"]))
        elif op == "create_inter": o.update(a=c(M), b=c(M), mu=c([-1, 0, 1, 2, 3]))
        elif op in ("get_inter", "exist_inter"): o.update(a=c(M), b=c(M))
        elif op == "exist_material": o.update(m=c(M + ["zz"]))
        else: o.update(b=c(B))
        ev.append(o)
    return ev


rec = Recorder(a.out, "e%d_" % a.part, chunk=350)
for i, h in enumerate(histories()):
    E = soft_engine(3)
    E.params.use_spatial_hashing = i % 2 == 0
    rec.begin()
    for o in h:
        if o["op"] == "create_body" and "T" in o:          # generated by the specification: mesh 0 or 9
            o = dict(op="create_body", n=o["n"], mesh=o["mesh"])
        rec.emit(run(E, o))
rec.close()
