"""Robot descriptions (URDF) written to a scratch folder and read by the real importer."""
import logging
import os
import random
import shutil
import tempfile
from vlib import *
a_ = args()
import numpy as np
import rainbow.simulators.prox_rigid_bodies.api as API
from rainbow.simulators.prox_rigid_bodies.scenes.read_urdf import read_urdf, URDF

logging.disable(logging.CRITICAL)
rec = Recorder(a_.out, chunk=60)
rng = random.Random(a_.seed * 1000003 + a_.part)
c = rng.choice
N = 60 if a_.tier == "quick" else 800
scratch = tempfile.mkdtemp(prefix="verif_urdf_")
Q4 = [0.0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966]


def tet():
    """A positively oriented tetrahedron with integer corners, no two of them alike."""
    while True:
        V = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(4)]
        A = np.array(V[1:]) - np.array(V[0])
        d = round(float(np.linalg.det(A)))
        if d > 0:
            return V, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]


def write_mesh(name, V, T):
    ext = c(["obj", "obj", "ply"])
    path = "meshes/%s.%s" % (name, ext)
    with open(os.path.join(pkg, path), "w") as f:
        if ext == "obj":
            f.write("".join("v %s %s %s\n" % tuple(v) for v in V) + "".join("f %d %d %d\n" % tuple(i + 1 for i in t) for t in T))
        else:
            f.write("ply\nformat ascii 1.0\nelement vertex %d\nproperty double x\nproperty double y\nproperty double z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n" % (len(V), len(T)))
            f.write("".join("%s %s %s\n" % tuple(v) for v in V) + "".join("3 %d %d %d\n" % tuple(t) for t in T))
    return path


def origin(p=0.85, far=3):
    """(specification, text): parts that are left out are zero."""
    o = dict(xyz=[0, 0, 0], rpy=[0, 0, 0])
    if rng.random() > p:
        return o, c(["", "<origin/>"])
    t = "<origin"
    if rng.random() < 0.85:
        o["xyz"] = [rng.randint(-far, far) for _ in range(3)]
        t += ' xyz="%s"' % c([" ", "  "]).join(c(["%d", "%.2f"]) % x for x in o["xyz"])
    if rng.random() < 0.85:
        o["rpy"] = [rng.randint(0, 3) for _ in range(3)]
        t += ' rpy="%s"' % " ".join(repr(Q4[k]) for k in o["rpy"])
    return o, t + "/>"


def robot(tag):
    k = c([1, 2, 3, 4, 5, 5, 6])
    names = ["%s_%s%d" % (tag, c(["link", "arm", "a"]), i) for i in range(k)]
    links, joints, L, J = [], [], [], []
    for i, x in enumerate(names):
        V, T = tet()
        col, ct = origin(0.7, 2)
        ine, it = origin(0.7, 2)
        scale = [1, 1, 1] if rng.random() < 0.6 else [rng.randint(1, 3) for _ in range(3)]
        mass, inertia = rng.randint(1, 9), [rng.randint(1, 9) for _ in range(3)]
        path = write_mesh(x, V, T)
        url = "package://" + path if rng.random() < 0.8 else os.path.join(pkg, path)
        sc = "" if scale == [1, 1, 1] and rng.random() < 0.7 else ' scale="%d %d %d"' % tuple(scale)
        mt = '<mass value="%d"/>' % mass
        nt = '<inertia ixx="%d" ixy="0" ixz="0.0" iyy="%d" iyz="0" izz="%d"/>' % tuple(inertia)
        if rng.random() < 0.1:
            mt, mass = "", 0
        if rng.random() < 0.1:
            nt, inertia = '<inertia iyy="4"/>', [0, 4, 0]
        vis = c(["", '<visual><origin xyz="9 9 9"/><geometry><mesh filename="package://meshes/none.dae"/></geometry></visual>', '<visual><geometry><box size="1 1 1"/></geometry></visual>'])
        links.append(dict(name=x, solid=True, collision=col, inertial=ine, scale=scale, V=V, T=T, mass=mass, inertia=inertia))
        parts = [vis, "<collision>%s<geometry><mesh filename=\"%s\"%s/></geometry></collision>" % (ct, url, sc), "<inertial>%s%s%s</inertial>" % (it, mt, nt)]
        rng.shuffle(parts)
        L.append('<link name="%s">%s</link>' % (x, "".join(parts)))
        if i:
            joints.append(dict(name="%s_j%d" % (tag, i), type="revolute", parent=names[rng.randrange(i)], child=x))
    virtual = dict(solid=False, collision=dict(xyz=[0, 0, 0], rpy=[0, 0, 0]), inertial=dict(xyz=[0, 0, 0], rpy=[0, 0, 0]), scale=[1, 1, 1], V=[], T=[], mass=0, inertia=[0, 0, 0])
    for i in range(rng.randint(0, 2)):
        x = "%s_virtual%d" % (tag, i)
        links.append(dict(virtual, name=x))
        L.append('<link name="%s">%s</link>' % (x, c(["", '<collision><geometry><box size="1 1 1"/></geometry></collision>', '<collision><geometry><mesh filename="package://meshes/a.dae"/></geometry></collision>'])))
        p, q = (x, c(names)) if rng.random() < 0.5 else (c(names), x)
        joints.append(dict(name="%s_f%d" % (tag, i), type=c(["fixed", "fixed", "prismatic", "continuous"]), parent=p, child=q))
    for j in joints:
        j["origin"], ot = origin(0.9)
        j["axis"] = [0, 0, 0]
        j["axis"][rng.randrange(3)] = c([1, -1, 2, 1])
        at = '<axis xyz="%d %d %d"/>' % tuple(j["axis"])
        if rng.random() < 0.15:
            j["axis"], at = [1, 0, 0], ""
        parts = [ot, '<parent link="%s"/>' % j["parent"], '<child link="%s"/>' % j["child"], at, c(["", '<limit lower="-1" upper="1" effort="1" velocity="1"/>'])]
        rng.shuffle(parts)
        J.append('<joint name="%s" type="%s">%s</joint>' % (j["name"], j["type"], "".join(parts)))
    # the order in the file is free; the description below follows the order of the file
    for objs, texts in ((links, L), (joints, J)):
        order = list(range(len(objs)))
        rng.shuffle(order)
        objs[:] = [objs[i] for i in order]
        texts[:] = [texts[i] for i in order]
    body = L + J if rng.random() < 0.7 else [x for p in zip(J + [""] * len(L), L + [""] * len(J)) for x in p]
    text = '<?xml version="1.0"?>\n<robot name="%s">\n%s\n</robot>\n' % (tag, "\n".join(x for x in body if x))
    fn = tag + ".urdf"
    open(os.path.join(pkg, fn), "w").write(text)
    return dict(name=tag, links=links, joints=joints), c([fn, "/" + fn])


def held(E):
    return ({x: (fxv(b.r, 64), fxv(b.q, 4096, 1), fx(b.mass, 64), ([frv(v, 1024) for v in b.shape.mesh.V], [fxv(t) for t in b.shape.mesh.T]) if b.shape is not None else ()) for x, b in E.bodies.items()},
            {x: (h.parent.name, h.child.name, frv(h.arm_p, 1024), frv(h.arm_c, 1024), frv(h.axis_p, 1024)) if h.parent is not None else () for x, h in E.hinges.items()})


def same(before, E):
    now = held(E)
    return all(x in now[k] and now[k][x] == before[k][x] for k in (0, 1) for x in before[k])


try:
    for it in range(N):
        rec.begin()
        pkg = os.path.join(scratch, "p%d" % it)
        os.makedirs(os.path.join(pkg, "meshes"))
        E = API.create_engine()
        E.params.resolution = 3
        for n in range(c([1, 1, 2])):
            R, fn = robot("r%d" % n)
            before = held(E)
            out, r = call(URDF.parse_urdf_file, pkg, fn)
            rec.emit(dict(op="parse", out=out, robot=R, **(dict(name=r[0], links=[x["name"] for x in r[1]], joints=[[j["name"], j["type"], j["parent"], j["child"]] for j in r[2]]) if out == "ok" else {})))
            out, _ = call(read_urdf, E, pkg, fn)
            ev = dict(op="read", out=out, robot=R, bodies=[], hinges=[], others=same(before, E))
            if out == "ok":
                for b in E.bodies.values():
                    if b.name not in before[0] and (b.shape is None or b.shape.mesh is None):
                        ev["out"] = "no shape"
                    elif b.name not in before[0]:
                        ev["bodies"].append(dict(name=b.name, r=fxv(b.r), m=fxv(np.array(qmat(b.q)).ravel()), V=[fxv(v) for v in b.shape.mesh.V], T=[[int(i) for i in t] for t in b.shape.mesh.T],
                                                 mass=fx(b.mass), inertia=fxv(b.inertia), free=not b.is_fixed, rest=not (np.any(b.v) or np.any(b.w))))
                for h in E.hinges.values():
                    if h.name not in before[1] and h.parent is None:
                        ev["hinges"].append(dict(name=h.name, parent="", child="", arm_p=[], arm_c=[], axis_p=[], axis_c=[]))
                    elif h.name not in before[1]:
                        ev["hinges"].append(dict(name=h.name, parent=h.parent.name, child=h.child.name, arm_p=fxv(h.arm_p), arm_c=fxv(h.arm_c), axis_p=fxv(h.axis_p), axis_c=fxv(h.axis_c)))
            rec.emit(ev)
            if rng.random() < 0.15:
                before = held(E)
                out, _ = call(read_urdf, E, pkg, fn)
                rec.emit(dict(op="again", out=out, others=same(before, E) and len(E.bodies) == len(before[0]) and len(E.hinges) == len(before[1])))
        shutil.rmtree(pkg)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
rec.close()
