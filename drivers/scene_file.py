"""Random scenes written by the real exporter to a scratch folder; the document is read back element by element."""
import copy
import logging
import os
import random
import shutil
import tempfile
import xml.etree.ElementTree as ET
from vlib import *
a_ = args()
import numpy as np
from worlds import *
import rainbow.simulators.prox_rigid_bodies.api as API
from rainbow.simulators.prox_rigid_bodies.scenes.write_xml import write_xml
import rainbow.math.quaternion as Q

logging.disable(logging.CRITICAL)
rec = Recorder(a_.out, chunk=60)
rng = random.Random(a_.seed * 1000003 + a_.part + 7)
c = rng.choice
N = 50 if a_.tier == "quick" else 700
S = 10**5
scratch = tempfile.mkdtemp(prefix="verif_xml_")
DECOR = ["", "", "", " & co", "<1>", '"q"', "é", "'", " two", "0"]
S2 = 0.7071067811865476


def turn():
    q = np.array([1.0, 0, 0, 0])
    for _ in range(rng.randint(0, 3)):
        q = Q.prod(q, np.array(c([[S2, S2, 0, 0], [S2, 0, S2, 0], [S2, 0, 0, S2]])))
    return q


def real():
    return c([-1, 1]) * c([rng.randint(0, 9), rng.uniform(0.001, 1), rng.uniform(1, 90), rng.uniform(100, 900), 1e-3])


def vec():
    return np.array([real() for _ in range(3)])


def params(E):
    """Name, type and exact value of every parameter."""
    return [[k, type(v).__name__, exact(v)] for k, v in sorted(vars(E.params).items())]


def exact(v):
    return str(v) if isinstance(v, (bool, str)) else "%d" % v if isinstance(v, int) else float(v).hex()


def mat(q):
    return fxv(np.array(qmat(np.asarray(q, dtype=float))).ravel())


def scene(E, given):
    known = {"Gravity": "gravity", "Damping": "damping"}
    on_hinge = {b.name for h in E.hinges.values() for b in (h.parent, h.child)}
    return dict(
        bodies=[dict(name=b.name, idx=b.idx, shape=b.shape.name, pos=frv(b.r, S), rot=frv(b.q, S), vel=frv(b.v, S), spin=frv(b.w, S), mass=fr(b.mass, S), inertia=frv(b.inertia, S),
                     fixed=bool(b.is_fixed), material=b.material, forces=[f.name for f in b.forces],
                     m=mat(b.q) if b.name in on_hinge else [1, 0, 0, 0, 1, 0, 0, 0, 1], r=frv(b.r, S) if b.name in on_hinge else [0, 0, 0]) for b in E.bodies.values()],
        forces=[dict(name=f.name, type=known[type(f).__name__], nums=([fr(f.g, S)] + frv(f.up, S)) if type(f).__name__ == "Gravity" else [fr(f.alpha, S), fr(f.beta, S)]) for f in E.forces.values()],
        shapes=[dict(name=s.name, V=[frv(v, S) for v in s.mesh.V], T=[[int(i) for i in t] for t in s.mesh.T]) for s in E.shapes.values()],
        materials=[dict(pair=list(k), mu=frv(v.mu, S), eps=fr(v.epsilon, S)) for k, v in E.surfaces_interactions.storage.items()],
        hinges=[dict(name=h.name, parent=h.parent.name, child=h.child.name, arm=frv(h.arm_p, S), axis=frv(h.axis_p, S), **given.get(h.name, dict(given=False, o=[0, 0, 0], a=[0, 0, 0]))) for h in E.hinges.values()],
        params=params(E))


def nums(t):
    return frv([float(x) for x in t.replace("[", " ").replace("]", " ").replace(",", " ").split()], S)


def num(t):
    return fr(float(t), S)


TYPED = {"bool": lambda t: {"True": True, "False": False}[t], "int": int, "float": float, "str": str}


def document(path):
    """The tokens of the written file; only their notation is decoded here."""
    root = ET.parse(path).getroot()
    assert root.tag == "scene" and [e.tag for e in root] .count("bodies") == 1
    kids = lambda tag, what=None: [e for e in root.find(tag) if what is None or e.tag == what]
    g = lambda e, k: e.attrib[k]
    return dict(
        bodies=[dict(name=g(e, "name"), idx=int(g(e, "idx")), shape=g(e, "shape"), pos=nums(g(e, "pos")), rot=nums(g(e, "rot")), vel=nums(g(e, "vel")), spin=nums(g(e, "spin")),
                     mass=num(g(e, "mass")), inertia=nums(g(e, "inertia")), fixed=TYPED["bool"](g(e, "is_fixed")), material=g(e, "material"),
                     apply=[g(x, "name") for x in e.findall("apply")]) for e in kids("bodies")],
        forces=[dict(name=g(e, "name"), type=e.tag, nums=([num(g(e, "g"))] + nums(g(e, "up"))) if e.tag == "gravity" else [num(g(e, "alpha")), num(g(e, "beta"))]) for e in kids("forces")],
        shapes=[dict(name=g(e, "name"), vcount=int(g(e.find("vertices"), "count")), vidx=[int(g(x, "idx")) for x in e.find("vertices")], V=[nums(g(x, "p")) for x in e.find("vertices")],
                     tcount=int(g(e.find("triangles"), "count")), tidx=[int(g(x, "idx")) for x in e.find("triangles")],
                     T=[[int(y) for y in g(x, "labels").strip("[]").split()] for x in e.find("triangles")]) for e in kids("shapes")],
        materials=[dict(pair=g(e, "materials").split(), mu=nums(g(e, "friction")), eps=num(g(e, "restitution"))) for e in kids("materials")],
        hinges=[dict(name=g(e, "name"), idx=int(g(e, "idx")), parent=g(e, "parent"), pidx=int(g(e, "parent-idx")), child=g(e, "child"), cidx=int(g(e, "child-idx")),
                     origin=nums(g(e, "origin")), axis=nums(g(e, "axis")), mode=g(e, "mode")) for e in kids("hinges")],
        params=[[g(e, "name"), g(e, "type"), exact(TYPED[g(e, "type")](g(e, "value")))] for e in kids("params")])


def fingerprint(E):
    out = [sorted((k, repr(v)) for k, v in vars(E.params).items()), list(E.bodies), list(E.shapes), list(E.forces), list(E.hinges), sorted(map(str, E.surfaces_interactions.storage))]
    for b in E.bodies.values():
        out += [np.array(x, dtype=float).tobytes() for x in (b.r, b.q, b.v, b.w, b.inertia, b.mass)] + [b.is_fixed, b.material, [f.name for f in b.forces], b.shape.name]
    for s in E.shapes.values():
        out += [np.array(s.mesh.V).tobytes(), np.array(s.mesh.T).tobytes()]
    for h in E.hinges.values():
        out += [np.array(x, dtype=float).tobytes() for x in (h.arm_p, h.arm_c, h.axis_p, h.axis_c)] + [h.parent.name, h.child.name]
    return out


def build(E, given, tag):
    name = lambda k, i: "%s%s%d%s" % (tag, k, i, c(DECOR))
    forces, shapes, bodies = [], [], []
    for i in range(rng.randint(0, 3)):
        x = name("f", i)
        if rng.random() < 0.5:
            u = np.zeros(3)
            u[rng.randrange(3)] = c([1.0, -1.0])
            API.create_gravity_force(E, x, abs(real()) + 0.25, u)
        else:
            API.create_damping_force(E, x, abs(real()) + 0.25, abs(real()) + 0.25)
        forces.append(x)
    for i in range(rng.randint(1, 2)):
        x = name("s", i)
        V, T = box_mesh([c([0.5, 1, 2, 3.7]) for _ in range(3)], [real() / 50 for _ in range(3)])
        API.create_shape(E, x, API.create_mesh(V, T))
        shapes.append(x)
    mats = ["default"] + [tag + c(["wood", "ice", "b&w", "<m>"]) + str(i) for i in range(rng.randint(0, 3))]
    pairs = sorted({tuple(sorted((c(mats), c(mats)))) for _ in range(rng.randint(0, 4))} - {("default", "default")})
    made = []
    for p, q in pairs:
        if rng.random() < 0.5:
            p, q = q, p
        API.create_surfaces_interaction(E, p, q, rng.random(), np.array([rng.random() * 2 for _ in range(3)]))
        made += [p, q]
    for i in range(rng.randint(1, 5)):
        x = name("b", i)
        API.create_rigid_body(E, x)
        API.connect_shape(E, x, c(shapes))
        API.set_position(E, x, vec())
        q = np.array([rng.gauss(0, 1) for _ in range(4)])
        API.set_orientation(E, x, q / np.linalg.norm(q))
        API.set_velocity(E, x, vec())
        API.set_spin(E, x, vec())
        if rng.random() < 0.8:
            API.set_mass_properties(E, x, c([0.1, 1.0, 2.5]))
        if rng.random() < 0.3:
            API.set_body_type(E, x, "fixed")
        if made and rng.random() < 0.6:
            API.set_body_material(E, x, c(made))
        for f in rng.sample(forces, rng.randint(0, len(forces))):
            API.connect_force(E, x, f)
        bodies.append(x)
    for i in range(rng.randint(0, 2) if len(bodies) > 1 else 0):
        p, q = rng.sample(bodies, 2)
        for b in (p, q):
            if not any(b in (h.parent.name, h.child.name) for h in E.hinges.values()):
                API.set_orientation(E, b, turn(), use_model_frame=False)
                API.set_position(E, b, np.array([float(rng.randint(-9, 9)) for _ in range(3)]), use_model_frame=False)
        x = name("h", i)
        o, u = np.array([float(rng.randint(-9, 9)) for _ in range(3)]), np.zeros(3)
        u[rng.randrange(3)] = c([1.0, -1.0])
        API.create_hinge(E, x)
        API.set_hinge(E, x, p, q, o, u, mode="world")
        given[x] = dict(given=True, o=frv(o, S), a=frv(u, S), p=p)
    for _ in range(rng.randint(0, 4)):
        k = c(sorted(set(vars(E.params)) - {"K"}))
        v = getattr(E.params, k)
        setattr(E.params, k, (not v) if isinstance(v, bool) else rng.randint(10, 500) if isinstance(v, int) else c([rng.random(), 1e-10, 0.0, 123456.789]) if isinstance(v, float) else v)


try:
    for it in range(N):
        rec.begin()
        E = API.create_engine()
        E.params.resolution = 3
        given = {}
        path = os.path.join(scratch, c(["scene.xml", "a b.xml", "s%d.xml" % it]))
        for rnd in range(c([0, 1, 1, 1, 2, 2])):
            build(E, given, "r%d" % rnd)
            E.params.resolution = c([3, 4])
            if rnd and rng.random() < 0.5:                            # a body is moved after its hinge was set
                b = c(list(E.bodies.values()))
                API.set_position(E, b.name, np.array([float(rng.randint(-9, 9)) for _ in range(3)]), use_model_frame=False)
                if any(b in (h.parent, h.child) for h in E.hinges.values()) and rng.random() < 0.7:
                    API.set_orientation(E, b.name, turn(), use_model_frame=False)
                for x, h in given.items():
                    if h["p"] == b.name:
                        h["given"] = False
            before = fingerprint(E)
            out, _ = call(write_xml, E, path)
            ev = dict(op="write", out=out, read="", untouched=fingerprint(E) == before, scene=scene(E, given), doc={})
            if out == "ok":
                try:
                    ev["doc"], ev["read"] = document(path), "ok"
                except Exception as e:
                    ev["read"] = type(e).__name__
            rec.emit(ev)
        if not E.bodies:                                                # an empty scene
            out, _ = call(write_xml, E, path)
            ev = dict(op="write", out=out, read="", untouched=True, scene=scene(E, given), doc={})
            if out == "ok":
                try:
                    ev["doc"], ev["read"] = document(path), "ok"
                except Exception as e:
                    ev["read"] = type(e).__name__
            rec.emit(ev)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
rec.close()
