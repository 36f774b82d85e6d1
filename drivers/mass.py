"""Mass properties of closed meshes with integer vertices, body frames, rotated inertia."""
import random
from vlib import *
a_ = args()
import numpy as np
import rainbow.math.quaternion as Q
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.mass as MASS

rec = Recorder(a_.out, chunk=120)
rng = random.Random(a_.seed * 1000003 + a_.part)
N = 60 if a_.tier == "quick" else 1500
FACES = {  # of the unit cube, outward, corners as (x,y,z) bits
    (-1, 0, 0): [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)], (1, 0, 0): [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)],
    (0, -1, 0): [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)], (0, 1, 0): [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)],
    (0, 0, -1): [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)], (0, 0, 1): [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
# integer matrices of positive determinant: multiples of rotations, shears, stretches
MAPS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, -1, 2], [2, 2, -1], [-1, 2, 2]], [[1, 2, 2], [2, 1, -2], [-2, 2, -1]],
        [[3, -4, 0], [4, 3, 0], [0, 0, 5]], [[1, -1, 0], [1, 1, 0], [0, 0, 1]], [[1, -1, 0], [1, 1, 0], [0, 0, 2]], [[1, 0, -1], [0, 1, 0], [1, 0, 1]],
        [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 2], [0, 1, 1], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 3]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 1, 1], [-1, 1, 1], [0, -1, 2]]]


def voxels(cells):
    ids, V, T = {}, [], []
    for c in cells:
        for d, cor in FACES.items():
            if tuple(c[i] + d[i] for i in range(3)) in cells:
                continue
            q = []
            for b in cor:
                p = tuple(c[i] + b[i] for i in range(3))
                if p not in ids:
                    ids[p] = len(V)
                    V.append(p)
                q.append(ids[p])
            k = rng.randint(0, 1)
            T += [[q[k], q[1 + k], q[2 + k]], [q[k], q[2 + k], q[(3 + k) % 4]]]
    return V, T


def solid():
    kind = rng.choice(["tet", "tet", "box", "square", "voxels", "voxels", "two", "octa"])
    if kind == "tet":
        while True:
            V = [tuple(rng.randint(-3, 3) for _ in range(3)) for _ in range(4)]
            A = np.array(V)
            d = np.dot(A[1] - A[0], np.cross(A[2] - A[0], A[3] - A[0]))
            if d:
                break
        T = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
        if d < 0:
            T = [[a, c, b] for a, b, c in T]
    elif kind == "octa":
        a, b, c = rng.choice([(1, 1, 1), (1, 1, 2), (2, 1, 2), (1, 2, 3)])
        V = [(a, 0, 0), (-a, 0, 0), (0, b, 0), (0, -b, 0), (0, 0, c), (0, 0, -c)]
        T = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
    elif kind in ("box", "square"):
        V, T = voxels({(0, 0, 0)})
        s = [rng.randint(1, 3) for _ in range(3)]
        if kind == "square":
            s[1] = s[0]
        V = [tuple(s[i] * p[i] for i in range(3)) for p in V]
    elif kind == "two":
        V, T = voxels({(0, 0, 0), (2, rng.randint(0, 1), rng.randint(0, 2))})
    else:
        cells = {(0, 0, 0)}
        for _ in range(rng.randint(1, 4)):
            c = rng.choice(sorted(cells))
            d = rng.choice(sorted(FACES))
            cells.add(tuple(c[i] + d[i] for i in range(3)))
        V, T = voxels(cells)
    V = np.array(V)
    A = np.array(rng.choice(MAPS))
    if kind == "tet" and abs(np.linalg.det(A)) > 30:
        A = np.eye(3, dtype=int)
    V6 = lambda V: sum(np.dot(V[i], np.cross(V[j], V[k])) for i, j, k in T)
    if V6(V @ A.T) > 4000:          # 32-bit integers in the specification
        A = np.eye(3, dtype=int)
    V = V @ A.T
    if rng.random() < 0.7:
        V = V + np.array([rng.randint(-6, 6) for _ in range(3)])
    p = list(range(len(V)))
    rng.shuffle(p)
    W = np.zeros_like(V)
    W[p] = V
    T = [[p[i] for i in t] for t in T]
    T = [t[k:] + t[:k] for t in T for k in [rng.randint(0, 2)]]
    rng.shuffle(T)
    return W, np.array(T)


def six(A):
    A = np.asarray(A)
    return [A[0, 0], A[1, 1], A[2, 2], A[0, 1], A[0, 2], A[1, 2]]


def rotm(q):
    q = np.asarray(q, dtype=float)
    return np.array(qmat(q))


for it in range(N):
    rec.begin()
    V, T = solid()
    if it % 7 == 5:
        T = T[:, [1, 0, 2]]
    if it % 29 == 7:
        T = T[:0]
    rho = rng.choice([1, 2, 2, 3, 4])
    s = rng.choice([1.0, 1.0, 1.0, 0.5, 0.1, 0.01, 0.001, 100.0])
    U = V.astype(float) * s
    u0, t0 = U.copy(), T.copy()
    out, p = call(MASS.compute_mass_properties, U, T, rho / 2)
    ev = dict(op="mass", out=out, V=V.tolist(), T=(T + 1).tolist(), rho=rho, size=str(s))
    if out == "ok":
        m3, m5 = s ** 3, s ** 5
        ev.update(mass=fx(p.mass / m3, 12, 1e-5), com=frv(np.array([p.x, p.y, p.z]) / s, 1024),
                  I=[fr(x / m5, 240) for x in (p.Ixx, p.Iyy, p.Izz, p.Ixy, p.Ixz, p.Iyz)])
        out, r = call(MASS.xform_model_2_body_space, p)
        if out == "ok":
            r_, q, m, Ib = r
            R = rotm(q)
            ev.update(r=frv(np.asarray(r_) / s, 1024), m2=fr(m / m3, 12), Ib=[fr(x / m5, 240) for x in Ib],
                      ortho=bool(abs(np.linalg.norm(q) - 1) < 1e-9) and not np.iscomplexobj(Ib),
                      W=[fr(x / m5, 240) for x in six(R @ np.diag(Ib) @ R.T)])
            out, w = call(MASS.update_inertia_tensor, Q.to_matrix(q), Ib)
            if out == "ok":
                ev.update(W2=[fr(x / m5, 240) for x in six(w)])
        ev["out"] = out
        ev["same"] = bool((U == u0).all() and (T == t0).all())
    rec.emit(ev)
    R = np.array([[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)], dtype=float)
    B = np.array([rng.randint(-3, 9) for _ in range(3)], dtype=float)
    r0, b0 = R.copy(), B.copy()
    out, w = call(MASS.update_inertia_tensor, R, B)
    rec.emit(dict(op="congruent", out=out, R=fxv(r0), B=fxv(b0), W=fxv(w) if out == "ok" else [], same=bool((R == r0).all() and (B == b0).all())))
    if it % 6 == 0 and len(V) <= 12 and len(T):
        T2 = T if it % 7 != 5 else T[:, [1, 0, 2]]
        move = rng.random() < 0.8
        tiny = rng.choice([1.0, 1.0, 0.01])

        def shape():
            e = API.create_engine()
            e.params.resolution = 4
            mesh = API.create_mesh(V.astype(float) * tiny, T2.copy())
            model = mesh.V.copy()
            API.create_shape(e, "s", mesh, move)
            sh = e.shapes["s"]
            R = rotm(sh.q)
            mv = np.asarray(sh.mesh.V)
            back = (mv @ R.T + np.asarray(sh.r)) if move else mv
            return dict(back=[frv(b / tiny, 256) for b in back], m2=fr(sh.mass / tiny ** 3, 12), moved=bool(move or (mv == model).all()) and move,
                        W2=[fr(x / tiny ** 5, 240) for x in six(R @ np.diag(sh.inertia) @ R.T)], model=[fxv(v / tiny) for v in model], Tm=(np.asarray(sh.mesh.T) + 1).tolist())
        out, r = call(shape)
        ev = dict(op="shape", out=out, V=V.tolist(), T=(T2 + 1).tolist(), transform=move)
        if out == "ok":
            ev.update(r)
        rec.emit(ev)
rec.close()
