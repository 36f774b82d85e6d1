"""Calls on a real rigid-body engine: behaviours generated by TLC from RigidEngine, and seeded random histories."""
import json, random, sys
from vlib import *
a = args()
import numpy as np
import rainbow.simulators.prox_rigid_bodies.api as API

ROTS = cube_rotations()
QOF = {tuple(k): q for k, q in ROTS}
FOCUS = os.environ.get("FOCUS", "registry")

# box meshes: even sizes, distinct; centres anywhere; triangles pointing outwards
BOXES = [((2, 4, 6), (1, 0, 0)), ((4, 2, 6), (0, 0, 0)), ((6, 4, 2), (-2, 3, 1)), ((2, 6, 4), (5, -4, 2)), ((4, 6, 2), (0, 2, -7))]


def box_mesh(d, c):
    V = np.array([[c[0] + (i & 1) * d[0] - d[0] / 2, c[1] + ((i >> 1) & 1) * d[1] - d[1] / 2, c[2] + ((i >> 2) & 1) * d[2] - d[2] / 2]
                  for i in range(8)], dtype=float)
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    T = np.array([t for q in quads for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))], dtype=int)
    return V, T


def project(E, shapes_of):
    bodies = []
    for b in E.bodies.values():
        bodies.append(dict(name=b.name, idx=b.idx if isinstance(b.idx, int) else -1, shape=b.shape.name if b.shape is not None else "",
                           forces=[f.name for f in b.forces], mat=str(b.material), fixed=bool(b.is_fixed), mass=fx(b.mass),
                           inertia=fxv(b.inertia, 12), r=fxv(b.r), R=fxmat(b.q), v=fxv(b.v), w=fxv(b.w), bvh=b.bvh is not None))
    hinges = []
    for h in E.hinges.values():
        z = [0, 0, 0]
        hinges.append(dict(name=h.name, idx=h.idx if isinstance(h.idx, int) else -1, parent=h.parent.name if h.parent else "",
                           child=h.child.name if h.child else "", arm_p=fxv(h.arm_p) if h.arm_p is not None else z,
                           arm_c=fxv(h.arm_c) if h.arm_c is not None else z, axis_p=fxv(h.axis_p) if h.axis_p is not None else z,
                           axis_c=fxv(h.axis_c) if h.axis_c is not None else z))
    shapes = [dict(name=s.name, mass=fx(s.mass), inertia=fxv(s.inertia, 12), com=fxv(s.r), R=fxmat(s.q)) for s in E.shapes.values()]
    forces = []
    for f in E.forces.values():
        if f.force_type == "Gravity":
            forces.append(dict(name=f.name, kind="Gravity", p=[fx(f.g, 4), 0], up=fxv(f.up)))
        else:
            forces.append(dict(name=f.name, kind=str(f.force_type), p=[fx(f.alpha, 4), fx(f.beta, 4)], up=[0, 0, 0]))
    inter = [dict(a=k[0], b=k[1], eps=fx(x.epsilon, 4), mu=fxv(x.mu, 4)) for k, x in E.surfaces_interactions.storage.items()]
    shared = all(b.shape is None or b.shape is E.shapes.get(b.shape.name) for b in E.bodies.values()) and \
        all(f is E.forces.get(f.name) for b in E.bodies.values() for f in b.forces) and \
        all(E.bodies.get(k) is b and b.name == k for k, b in E.bodies.items()) and all(h.name == k for k, h in E.hinges.items()) and \
        all(s.name == k for k, s in E.shapes.items()) and all(f.name == k for k, f in E.forces.items()) and \
        all(x is None or x is E.bodies.get(x.name) for h in E.hinges.values() for x in (h.parent, h.child))
    return dict(bodies=bodies, hinges=hinges, shapes=shapes, forces=forces, inter=inter, shared=bool(shared))


def quat(R, k):
    q = np.array(QOF[tuple(R)]) * k
    return q


def scribble(x):
    """A caller is free to reuse its own array."""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x += 7.5


def run(E, o):
    """Perform one call; returns the event."""
    ev = dict(o)
    op = o["op"]
    A = API
    val, out = None, None
    f3 = lambda v: np.array(v, dtype=float)
    S = E.surfaces_interactions
    if op == "create_body":
        out, _ = call(A.create_rigid_body, E, o["n"])
    elif op == "create_hinge":
        out, _ = call(A.create_hinge, E, o["n"])
    elif op == "create_shape":
        k = o.get("mesh", 0)
        d, c = BOXES[k % len(BOXES)]
        V, T = box_mesh(d, c)
        ev = dict(op=op, n=o["n"], d=list(d), c=list(c), tf=bool(o.get("tf", True)), vm=[fxv(v) for v in V])
        m_out, mesh = call(A.create_mesh, V, T)
        if m_out == "ok":
            if ev["tf"]:
                out, _ = call(A.create_shape, E, o["n"], mesh)
            else:
                out, _ = call(A.create_shape, E, o["n"], mesh, False)
        else:
            out = m_out
        s = E.shapes.get(o["n"])
        if s is not None and out == "ok":
            ev["shape"] = dict(S=fxmat(s.q), com=fxv(s.r), mass=fx(s.mass), inertia=fxv(s.inertia, 12))
            ev["vb"] = [fxv(v) for v in s.mesh.V]
        else:
            ev["shape"] = dict(S=[0] * 9, com=[0] * 3, mass=0, inertia=[0] * 3)
            ev["vb"] = []
    elif op == "connect_shape":
        out, _ = call(A.connect_shape, E, o["b"], o["s"])
    elif op == "create_gravity":
        up = f3(o["up"])
        out, _ = call(A.create_gravity_force, E, o["n"], o["g"] / 4.0, up)
        scribble(up)
    elif op == "create_damping":
        out, _ = call(A.create_damping_force, E, o["n"], o["alpha"] / 4.0, o["beta"] / 4.0)
    elif op == "connect_force":
        out, _ = call(A.connect_force, E, o["b"], o["f"])
    elif op == "set_position":
        r = f3(o["r"])
        out, _ = call(A.set_position, E, o["b"], r, use_model_frame=o["mf"]) if o["mf"] else call(A.set_position, E, o["b"], r)
        scribble(r)
    elif op == "set_orientation":
        q = quat(o["R"], o.get("k", 1))
        out, _ = call(A.set_orientation, E, o["b"], q, o["mf"])
        scribble(q)
    elif op in ("set_velocity", "set_spin"):
        v = f3(o["v"])
        out, _ = call(A.set_velocity if op == "set_velocity" else A.set_spin, E, o["b"], v)
        scribble(v)
    elif op == "set_mass":
        out, _ = call(A.set_mass_properties, E, o["b"], float(o["rho"]))
    elif op == "set_type":
        out, _ = call(A.set_body_type, E, o["b"], o["t"])
    elif op == "set_material":
        out, _ = call(A.set_body_material, E, o["b"], o["m"])
    elif op == "create_inter":
        mu = f3(o["mu"]) / 4.0
        out, _ = call(A.create_surfaces_interaction, E, o["a"], o["b"], o["eps"] / 4.0, mu)
    elif op == "set_hinge":
        og, ax = f3(o["origin"]), f3(o["axis"])
        out, _ = call(A.set_hinge, E, o["h"], o["parent"], o["child"], og, ax, o["mode"])
        scribble(og)
        scribble(ax)
    elif op == "get_position":
        out, val = call(A.get_position, E, o["b"])
        ev["val"] = fxv(val) if out == "ok" else []
        scribble(val)
    elif op == "get_orientation":
        out, val = call(A.get_orientation, E, o["b"])
        ev["val"] = fxmat(val) if out == "ok" else []
        scribble(val)
    elif op == "get_velocity":
        out, val = call(A.get_velocity, E, o["b"])
        ev["val"] = fxv(val) if out == "ok" else []
        scribble(val)
    elif op == "get_spin":
        out, val = call(A.get_spin, E, o["b"])
        ev["val"] = fxv(val) if out == "ok" else []
        scribble(val)
    elif op == "is_fixed":
        out, val = call(A.is_fixed_body, E, o["b"])
        ev["val"] = [1 if val else 0] if out == "ok" else []
    elif op == "get_inter":
        out, x = call(S.get_interaction, o["a"], o["b"])
        ev["val"] = [fx(x.epsilon, 4)] + fxv(x.mu, 4) if out == "ok" and x is not None else [OFF] * 4
    elif op == "exist_inter":
        out, x = call(S.exist_interaction, o["a"], o["b"])
        ev["val"] = [1 if x else 0]
    elif op == "exist_material":
        out, x = call(S.exist_material, o["m"])
        ev["val"] = [1 if x else 0]
    else:
        raise SystemExit("unknown op " + op)
    ev["out"] = out
    ev["eng"] = project(E, None)
    return ev


def engine():
    E = API.create_engine()
    E.params.resolution = 3
    return E


def histories():
    """TLC's behaviours first, then random ones."""
    if a.scripts:
        for i, line in enumerate(open(a.scripts)):
            if i % a.parts == a.part:
                yield json.loads(line)
    rng = random.Random(a.seed * 1000003 + a.part)
    n = {"quick": 240, "thorough": 3000}[a.tier]
    for _ in range(n // a.parts):
        yield list(random_history(rng))


def random_history(rng):
    B, S, F, H, M = ["b1", "b2", "b3", "B1"], ["s1", "s2", "s3"], ["f1", "f2", "f3"], ["h1", "h2"], ["default", "m1", "m2", "aa"]
    vec = lambda: [rng.randint(-9, 9) for _ in range(3)]
    ax = lambda: [rng.choice([-3, -1, 1, 2]) if i == k else 0 for k in [rng.randrange(3)] for i in range(3)]
    c = rng.choice
    ev = []
    place = FOCUS == "placement"
    if place or rng.random() < 0.6:
        for s in S[:2]:
            ev.append(dict(op="create_shape", n=s, mesh=rng.randrange(5), tf=True))
        for b in B[:3]:
            ev.append(dict(op="create_body", n=b))
            if rng.random() < .8:
                ev.append(dict(op="connect_shape", b=b, s=c(S[:2])))
        if not place:
            for f in F:
                ev.append(dict(op="create_gravity", n=f, g=39, up=ax()) if rng.random() < .5 else dict(op="create_damping", n=f, alpha=1, beta=2))
            for m in M[1:]:
                ev.append(dict(op="create_inter", a=m, b=c(M), eps=1, mu=[1, 2, 3]))
            ev.append(dict(op="create_hinge", n="h1"))
    W = dict(create_body=3, create_hinge=2, create_shape=1, connect_shape=3, create_gravity=2, create_damping=2, connect_force=4, set_position=4,
             set_orientation=4, set_velocity=2, set_spin=2, set_mass=3, set_type=3, set_material=4, create_inter=5, set_hinge=3,
             get_position=1, get_orientation=1, get_velocity=1, get_spin=1, is_fixed=1, get_inter=4, exist_inter=2, exist_material=2)
    if place:
        for k in W:
            W[k] = W[k] if k in ("create_shape", "connect_shape", "create_hinge") else 0
        W.update(set_position=12, set_orientation=12, set_hinge=8, set_mass=2, get_position=2, get_orientation=2)
    for k in rng.sample(sorted(W), 4):              # each history dwells on a few kinds of call
        W[k] *= 8
    kinds = [k for k, w in W.items() for _ in range(w)]
    for _ in range(rng.randint(30, 70)):
        op = c(kinds)
        o = dict(op=op)
        if op == "create_body": o.update(n=c(B))
        elif op == "create_hinge": o.update(n=c(H))
        elif op == "create_shape": o.update(n=c(S), mesh=rng.randrange(5), tf=rng.random() < .7)
        elif op == "connect_shape": o.update(b=c(B), s=c(S))
        elif op == "create_gravity": o.update(n=c(F), g=c([-4, 0, 1, 39]), up=ax())
        elif op == "create_damping": o.update(n=c(F), alpha=c([-1, 0, 1, 2]), beta=c([-1, 0, 1, 8]))
        elif op == "connect_force": o.update(b=c(B), f=c(F))
        elif op == "set_position": o.update(b=c(B), r=vec(), mf=rng.random() < .5)
        elif op == "set_orientation": o.update(b=c(B), R=c(ROTS)[0], k=c([1, -1, 2, -3]), mf=rng.random() < .5)
        elif op in ("set_velocity", "set_spin"): o.update(b=c(B), v=vec())
        elif op == "set_mass": o.update(b=c(B), rho=rng.randint(1, 5))
        elif op == "set_type": o.update(b=c(B), t=c(["fixed", "Fixed", "FIXED", "free", "Free", "FREE", "static", ""]))
        elif op == "set_material": o.update(b=c(B), m=c(M))
        elif op == "create_inter": o.update(a=c(M), b=c(M), eps=c([-1, 0, 1, 2]), mu=[c([-1, 0, 1, 2, 3]) for _ in range(3)] if rng.random() < .5 else [1, 2, 3])
        elif op == "set_hinge": o.update(h=c(H), parent=c(B), child=c(B), origin=vec(), axis=ax(), mode=c(["world", "body", "model", "World"]))
        elif op in ("get_inter", "exist_inter"): o.update(a=c(M), b=c(M))
        elif op == "exist_material": o.update(m=c(M + ["zz"]))
        else: o.update(b=c(B))
        ev.append(o)
    return ev


rec = Recorder(a.out, "e%d_" % a.part, chunk=700)
for h in histories():
    E = engine()
    rec.begin()
    for o in h:
        rec.emit(run(E, o))
rec.close()
