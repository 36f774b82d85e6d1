"""Runs the proximal contact solvers: (a) with scripted sweeps, (b) the four schemes on synthetic contact problems."""
import json, random, types
from vlib import *
a = args()
import numpy as np
import scipy.sparse as sparse
import numba
import rainbow.simulators.proximal_contact.prox_solvers as PROX
from rainbow.simulators.proximal_contact.solver_interface import SolverInterface

rec = Recorder(a.out, chunk=700)
rng = random.Random(a.seed * 1000003 + a.part)
INF = 10**9
NAMES = ("residuals", "iterations", "exitcode", "lambda", "reject", "solver_time")


def log2(r):
    return fx(math.log2(r)) if r > 0 and math.isfinite(r) else OFF


def engine(**kw):
    p = dict(max_iterations=50, absolute_tolerance=1e-9, relative_tolerance=0.0, nu_increase=1.0, nu_reduce=0.5, too_small_merit_change=0.0)
    p.update(kw)
    return types.SimpleNamespace(params=types.SimpleNamespace(**p), contact_points=[], simulator_type="rigid_body")


# ---- (a) ---------------------------------------------------------------------------------------
class Scripted(SolverInterface):
    def sweep(self):
        nxt = self.xs[min(self.i, len(self.xs) - 1)]
        self.i += 1
        rec.emit(dict(op="it", x=list(nxt), x0=fxv(self.x), sol=fxv(self.sol), r=[log2(v * 10 * d) for v, d in zip(self.r, self.diag)]))
        self.x[:] = nxt


def script(c, xs):
    n = len(xs[0])
    E = engine(max_iterations=c["max"], absolute_tolerance=c["abs4"] / 4, relative_tolerance=c["relN"] / c["relD"],
               too_small_merit_change=c["too4"] / 4, nu_increase=2.0 ** c["up"], nu_reduce=0.5 ** c["down"])
    diag = [rng.choice([0, 0.5, 1, 2, 4, 3]) for _ in range(n)]
    J = sparse.csr_matrix(np.eye(n)); WJT = sparse.csr_matrix(np.diag(diag).astype(float))
    debug = rng.random() < 0.7
    stats = {"other": 1}
    prefix = rng.choice(["", "p_"])
    rec.begin(kind="script", n=n, c=c)
    s = Scripted(J, WJT, np.zeros(n), np.zeros(max(1, n // 4)), PROX.prox_sphere, E, stats, debug, prefix)
    s.xs, s.i, s.diag = xs, 0, [d or 1 for d in diag]
    out, v = call(s.solve)
    sol, st = v if v is not None else ([], {})
    m = lambda q: INF if q == np.inf else fx(q, 4)
    rec.emit(dict(op="exit", out=out, debug=debug, sol=fxv(sol), nolog=st is stats and (debug or set(stats) == {"other"}),
                  exitcode=int(st.get(prefix + "exitcode", -9)), iterations=int(st.get(prefix + "iterations", -9)),
                  res=[m(q) for q in st.get(prefix + "residuals", [])], rej=[bool(q) for q in st.get(prefix + "reject", [])],
                  lam=[fxv(q) for q in st.get(prefix + "lambda", [])]))


# ---- (b) ---------------------------------------------------------------------------------------
current = dict(on=False)


def tap(cls):
    real = cls.sweep

    def sweep(self):
        if not current["on"]:
            return real(self)
        x0, r = frv(self.x, 1024), frv(self.r, 65536)
        real(self)
        rec.emit(dict(op="sweep", x0=x0, x=frv(self.x, 1024), r=r))
    cls.sweep = sweep


for cls in (PROX.GaussSeidelSolver, PROX.ParallelGaussSeidelSolver, PROX.ParallelJacobiSolver, PROX.ParallelJacobiHybridSolver):
    tap(cls)

SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def real(scheme, iters):
    """contacts between bodies of three velocity components each; body 0 may be fixed"""
    long = scheme.startswith("parallel_g") and rng.random() < 0.6       # chains whose colours interleave
    nb = rng.randint(4, 5) if long else rng.randint(2, 5)
    K = rng.randint(3, 4) if long else rng.randint(1, 4)
    fixed0 = rng.random() < 0.4
    W = np.diag([0.0 if (fixed0 and i < 3) else rng.choice([0.25, 0.5, 1.0]) for i in range(3 * nb)])
    E = engine(max_iterations=iters, nu_reduce=rng.choice([0.5, 0.7]), nu_increase=rng.choice([1.0, 1.1]),
               too_small_merit_change=rng.choice([0.0, 1e-3]), absolute_tolerance=rng.choice([1e-9, 1e-7]))
    J = np.zeros((4 * K, 3 * nb))
    shape = "chain" if long else rng.choice(["chain", "random", "star"])
    for k in range(K):
        if shape == "chain":
            A, B = k % nb, (k + 1) % nb
        elif shape == "star":
            A, B = 0, 1 + k % (nb - 1)
        else:
            A, B = rng.sample(range(nb), 2)
        if A == B:
            B = (A + 1) % nb
        if rng.random() < 0.4:
            A, B = B, A
        C = np.array([[rng.randint(-2, 2) for _ in range(3)] for _ in range(4)]) if rng.random() < 0.5 else np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, 0]])
        J[4 * k:4 * k + 4, 3 * A:3 * A + 3] -= C
        J[4 * k:4 * k + 4, 3 * B:3 * B + 3] += C
        E.contact_points.append(types.SimpleNamespace(bodyA=types.SimpleNamespace(idx=A), bodyB=types.SimpleNamespace(idx=B)))
    b = np.array([rng.randint(-32, 32) / 8 for _ in range(4 * K)])
    if long:
        b *= 6
    if long or rng.random() < 0.7:
        b[0::4] = -np.abs(b[0::4])
    mu8 = [rng.choice([0, 2, 4, 8, 12]) for _ in range(K)]
    fr = rng.choice(["sphere", "sphere", "origin"])
    Js, WJT = sparse.csr_matrix(J), sparse.csr_matrix(W.dot(J.T))
    if rng.random() < 0.5:
        WJT = WJT.tobsr() if K and WJT.nnz else WJT
    A4 = J.dot(W).dot(J.T) * 4
    mu = np.array(mu8) / 8
    debug = rng.random() < 0.5
    prefix = rng.choice(["", "q_"])
    rec.begin(kind="real", scheme=scheme, p=dict(K=K, A=[fxv(row) for row in A4], b=fxv(b, 1024), mu=mu8, fr=fr))
    stats = {}
    fs = PROX.prox_sphere if fr == "sphere" else PROX.prox_origin
    current["on"] = True
    out, v = call(PROX.solve, Js, WJT, b, mu, fs, E, stats, debug, prefix, scheme)
    current["on"] = False
    sol, st = v if v is not None else (np.zeros(0), stats)
    same = True
    if v is not None and scheme.startswith("parallel") and numba.config.NUMBA_NUM_THREADS > 1:
        keep = numba.get_num_threads()
        for n in (1, numba.config.NUMBA_NUM_THREADS):
            numba.set_num_threads(n)
            o2, v2 = call(PROX.solve, Js, WJT, b, mu, fs, E, {}, False, prefix, scheme)
            same = same and v2 is not None and np.array_equal(v2[0], sol)
        numba.set_num_threads(keep)
    pre = prefix if prefix else scheme + "_"
    tight = debug and st.get(pre + "exitcode") == 1 and iters > 100 and bool((np.diag(A4)[0::4] > 0).all())
    rec.emit(dict(op="done", out=out, sol=frv(sol, 1024), tight=tight, threads=bool(same),
                  keys=({pre + s for s in NAMES} <= set(st)) if debug else not any(s in k for k in st for s in NAMES)))


if a.scripts:
    for i, line in enumerate(open(a.scripts)):
        if i % a.parts == a.part:
            s = json.loads(line)
            script(s["c"], s["xs"])
quick = a.tier == "quick"
if os.environ.get("ONLY") != "real":
    for _ in range(120 if quick else 2500):
        n, m, amp = rng.randint(1, 6), rng.randint(1, 14), rng.choice([2, 5, 20])
        cur, xs = [0] * n, []
        decay = rng.random() < 0.6
        for i in range(m):
            lim = max(0, amp - (i if decay else 0))
            cur = [v + rng.randint(-lim, lim) if rng.random() < 0.8 else v for v in cur] if rng.random() < 0.9 else cur
            xs.append(list(cur))
        script(dict(max=m, abs4=rng.choice([0, 1, 2, 4, 9]), too4=rng.choice([0, 1, 4, 12]), relN=rng.choice([0, 1, 2, 3]), relD=4, up=rng.choice([0, 1, 2]), down=rng.choice([1, 1, 2])), xs)
for i in range(60 if quick else 700):
    real(SCHEMES[i % 4], rng.choice([1, 2, 4, 8]))
for i in range(8 if quick else 80):
    # (only the last iterates matter: record no sweeps)
    real(SCHEMES[i % 4], 400) if not quick or i < 4 else real(SCHEMES[i % 4], 30)
real("unknown", 3)
rec.close()
