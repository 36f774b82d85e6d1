"""Tetrahedral meshes: topology of generated complexes, blocks, subdivision (integer coordinates)."""
import json, random
from vlib import *
a = args()
import numpy as np
import rainbow.geometry.volume_mesh as VM
import rainbow.geometry.grid3 as GRID
import rainbow.math.vector3 as V3

rec = Recorder(a.out, chunk=60)
rng = random.Random(a.seed * 1000003 + a.part)
quick = a.tier == "quick"
EVEN = [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1), (0, 2, 3, 1), (0, 3, 1, 2), (3, 0, 2, 1), (1, 3, 2, 0), (3, 1, 0, 2), (2, 1, 3, 0)]
L = lambda X: np.asarray(X).astype(int).tolist()


def topology(T, n):
    rec.begin(kind="topology")
    keep = T.copy()

    def f():
        N = VM.compute_neighbors(T)
        S, O = VM.compute_surface(T, N)
        c = VM.VertexTetrahedronCirculator(np.zeros((n, 3)), T)
        return N, S, O, [L(c.tetrahedra(v)) for v in range(n)], VM.to_triangles(T)
    out, r = call(f)
    N, S, O, star, tri = r if r is not None else ([], [], [], [], [])
    rec.emit(dict(op="topology", out=out, T=L(T), N=L(N), S=L(S), O=L(O), star=star, tri=L(tri), frozen=bool((T == keep).all())))
    return S


def shuffle(T):
    return np.array([[t[i] for i in rng.choice(EVEN)] for t in rng.sample(list(map(list, T)), len(T))], dtype=rng.choice([np.int32, np.int64]))


def block(n, d, how):
    rec.begin(kind="block")

    def f():
        if how == "beam":
            V, T = VM.create_beam(*n, *[2.0 * d[i] * (n[i] - 1) for i in range(3)])
            return V, T, True
        g = GRID.Grid(V3.make(*[-1.0 * d[i] * (n[i] - 1) for i in range(3)]), V3.make(*[1.0 * d[i] * (n[i] - 1) for i in range(3)]), *n)
        w = GRID.get_nodes_array(g)
        g.values = w.dot([1.0, 10.0, 100.0])
        V, T, A = VM.from_grid3d(g)
        ok = len(A) == len(V) and np.allclose(A, V.dot([1.0, 10.0, 100.0])) and A is not g.values
        return V, T, bool(ok)
    out, r = call(f)
    V, T, ok = r if r is not None else ([], [], False)
    rec.emit(dict(op="beam", out=out, n=n, d=d, V=[fxv(p) for p in V], T=L(T), attr=ok))
    return (V, T) if r is not None else (None, None)


def coords(V, T):
    """jitter is no option on a lattice: an integer shear keeps all volumes positive"""
    M = np.eye(3, dtype=int)
    for _ in range(rng.randint(0, 3)):
        E = np.eye(3, dtype=int)
        i, j = rng.sample(range(3), 2)
        E[i, j] = rng.choice([-2, -1, 1, 2])
        M = M.dot(E)
    return np.asarray(V).dot(M)


def geometry(V, T):
    V = coords(V, T)
    sign = 1
    if rng.random() < 0.2:
        V, sign = V * np.array([1, 1, -1]), -1
    S = topology(T, len(V))
    rec.begin(kind="geometry")
    out, v = call(VM.compute_volumes, V.astype(float), T)
    rec.emit(dict(op="volumes", out=out, V=[fxv(p) for p in V], T=L(T), S=L(S), vol6=fxv(v, 6) if v is not None else []))
    if len(T) <= 10:
        kV, kT = V.copy(), T.copy()
        out, r = call(VM.create_loop_subdivision, V, T)
        V2, T2 = r if r is not None else ([], [])
        rec.emit(dict(op="loop", out=out, sign=sign, V=[fxv(p) for p in V], T=L(T), V2=[fxv(p, 2) for p in V2], T2=L(T2), frozen=bool((V == kV).all() and (T == kT).all())))
    s = rng.choice([[1, 2], [3, 4], [1, 1], [9, 10]])
    W = V * 40
    out, r = call(VM.to_tetrahedrons, W, T) if s == [9, 10] and rng.random() < 0.7 else call(VM.to_tetrahedrons, W, T, s[0] / s[1])
    Vo, Fo = r if r is not None else ([], [])
    rec.emit(dict(op="explode", out=out, V=[fxv(p) for p in W], T=L(T), s=s, Vo=[fxv(p) for p in Vo], Fo=L(Fo)))


TET = np.array([[0, 1, 2, 3]]), np.array([[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]])
if a.scripts:
    for i, line in enumerate(open(a.scripts)):
        if i % a.parts == a.part:
            s = json.loads(line)
            T = shuffle(s["T"])
            topology(T, s["n"] + rng.choice([0, 0, 1]))
for i in range(12 if quick else 120):
    n = [rng.choice([2, 2, 3]) for _ in range(3)]
    d = [rng.randint(1, 3) for _ in range(3)]
    V, T = block(n, d, rng.choice(["beam", "grid"]))
    if V is not None:
        T = shuffle(T)
        p = list(range(len(V))); rng.shuffle(p)             # renumber the nodes
        W = np.zeros_like(V)
        W[p] = V
        T = np.array(p)[T]
        k = rng.choice([1, 2, 5, 9, len(T)])
        sub = T[rng.sample(range(len(T)), min(k, len(T)))]     # any subset of a conforming mesh is one
        geometry(W, sub)
if a.part == 0:
    block([4, 3, 2], [1, 2, 1], "beam"); block([2, 3, 5], [1, 1, 1], "grid")
    geometry(TET[1], TET[0])
rec.close()
