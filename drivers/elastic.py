"""Material models, strain measures, polar decomposition and deformation gradients on integer matrices (F = A/2)."""
import random
from vlib import *
a = args()
import numpy as np
import rainbow.math.matrix3 as M3
import rainbow.simulators.prox_soft_bodies.mechanics as MECH
from rainbow.simulators.prox_soft_bodies.solver import Native

rec = Recorder(a.out, chunk=700)
rng = random.Random(a.seed * 1000003 + a.part)
quick = a.tier == "quick"
L = lambda X: [int(v) for v in np.asarray(X).ravel()]


def rotation():
    while True:
        p = rng.sample(range(3), 3)
        R = np.zeros((3, 3), dtype=int)
        for i in range(3):
            R[i, p[i]] = rng.choice([-1, 1])
        if round(np.linalg.det(R)) == 1:
            return R


def stretch():
    while True:
        U = np.array([[rng.randint(-2, 5) for _ in range(3)] for _ in range(3)])
        U = np.triu(U) + np.triu(U, 1).T
        if (np.linalg.eigvalsh(U) > 0.2).all():
            return U


def matrix(b=4):
    k = rng.random()
    if k < 0.3:
        return rotation().dot(stretch())
    if k < 0.5:
        return 2 * np.eye(3, dtype=int) + np.array([[rng.choice([0, 0, 0, 1, -1]) for _ in range(3)] for _ in range(3)])
    return np.array([[rng.randint(-b, b) for _ in range(3)] for _ in range(3)])


def stress(model):
    R, U = rotation(), stretch()
    if rng.random() < 0.1:
        U = 2 * np.eye(3, dtype=int)
    A = R.dot(U) if model == "COR" else matrix()
    la = rng.randint(0, 9)
    mu = rng.choice([6, 12, 18]) if model == "SNH" else rng.randint(1, 9)
    M = getattr(MECH, model)
    F = A / 2
    keep = F.copy()
    out, r = call(lambda: (M.pk1_stress(F, la, mu), M.energy_density(F, la, mu)))
    ev = dict(op="stress", model=model, A=L(A), la=la, mu=mu, out=out, frozen=bool((F == keep).all()))
    if r is not None:
        P, W = r
        if model == "SVK":
            ev.update(P=fxv(P, 16), W=fx(W, 128))
        elif model == "COR":
            ev.update(R=L(R), U=L(U), P=fxv(P, 2), W=fx(W, 8))
        else:
            den = 32 * (int((A * A).sum()) + 4)
            ev.update(den=den, P=fxv(P, den), W=fr((W - M.energy_density(np.eye(3), la, mu)), 12800))
    rec.emit(ev)


def polar():
    R, U = rotation(), stretch()
    A = R.dot(U)
    if rng.random() < 0.1:
        A = np.diag([rng.choice([0, 1, 2]), 0, rng.choice([0, 3])])
    out, r = call(M3.polar_decomposition, A / 2)
    rec.emit(dict(op="polar", A=L(A), wantR=L(R), out=out, R=fxv(r[0]) if r else [], S2=fxv(r[1], 2) if r else []))
    Rs = [rotation() for _ in range(rng.randint(1, 4))]
    As = [q.dot(stretch()) for q in Rs]
    out, r = call(M3.polar_decomposition_array, np.array(As) / 2)
    rec.emit(dict(op="polar_array", A=[L(x) for x in As], wantR=[L(x) for x in Rs], out=out, R=[fxv(x) for x in r[0]] if r else [], S2=[fxv(x, 2) for x in r[1]] if r else []))


def strain():
    A = matrix()
    out, r = call(lambda: (MECH.right_cauchy_strain_tensor(A / 2), MECH.green_strain_tensor(A / 2)))
    rec.emit(dict(op="strain", A=L(A), out=out, C4=fxv(r[0], 4) if r else [], E8=fxv(r[1], 8) if r else []))
    As = [x for x in (matrix() for _ in range(5)) if abs(np.linalg.det(x)) > 0.5][:3]
    Ss = [stretch() for _ in As]
    if As:
        out, r = call(MECH.cauchy_stress_tensor, np.array(As) / 2, np.array(Ss, dtype=float))
        rec.emit(dict(op="cauchy", A=[L(x) for x in As], S=[L(x) for x in Ss], out=out, sig=[fxv(r[i], round(np.linalg.det(As[i]))) for i in range(len(As))] if r is not None else []))
    la, mu = rng.randint(0, 20), rng.randint(1, 20)
    E, nu = mu * (3 * la + 2 * mu) / (la + mu), la / (2 * (la + mu))
    out, r = call(lambda: (MECH.first_lame(E, nu), MECH.second_lame(E, nu)))
    rec.emit(dict(op="lame", la=la, mu=mu, out=out, got=fxv(r) if r else []))


def named(n):
    out, r = call(MECH.create_material_parameters, n)
    v = "".join(rng.choice([c.upper(), c.lower()]) for c in n) if n else "no such material"
    out2, r2 = call(MECH.create_material_parameters, v)
    rec.emit(dict(op="named", name=n or "", out=out, E=fr(r[0], 0.001) if r else 0, nu=fr(r[1], 1000) if r else 0, rho=fr(r[2], 1) if r else 0, same=r == r2))


def gradient():
    V = np.array([[rng.randint(-3, 3) for _ in range(3)] for _ in range(7)])
    T = []
    for _ in range(30):
        t = rng.sample(range(7), 4)
        d = np.linalg.det(V[t[1:]] - V[t[0]])
        if abs(d) > 0.5:
            T.append(t if d > 0 else [t[0], t[2], t[1], t[3]])
    T = np.array(T[:rng.randint(1, 5)], dtype=int)
    if len(T) == 0:
        return
    A, b = matrix(3), np.array([rng.randint(-9, 9) for _ in range(3)])
    x = V.dot(A.T) / 2 + b
    out, Fs = call(lambda: Native.compute_deformation_gradient(x, T, Native.compute_inverse_D0(V.astype(float), T)))
    rec.emit(dict(op="gradient", A=L(A), T=T.tolist(), out=out, F=[fxv(f, 2) for f in Fs] if Fs is not None else []))
    out, N = call(Native.compute_outward_face_vectors, V.astype(float), T)
    rec.emit(dict(op="faces", V=V.tolist(), T=T.tolist(), out=out, N=[[fxv(n[:, c], 6) for c in range(4)] for n in N] if N is not None else []))


for i in range(80 if quick else 1500):
    rec.begin(kind="elastic")
    for m in ("SVK", "COR", "SNH"):
        for _ in range(3):
            stress(m)
    polar()
    strain()
    gradient()
rec.begin(kind="named")
for n in (None, "cartilage", "cortical bone", "cancellous bone", "rubber", "concrete", "copper", "steel", "aluminium", "glass"):
    named(n)
rec.close()
