"""Runs the rigid solver on problems whose sweeps follow a script (the base-class bookkeeping is the real one)."""
import json, random
from vlib import *
a = args()
import numpy as np
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER
import rainbow.simulators.prox_rigid_bodies.api as A
from rainbow.simulators.prox_rigid_bodies.constraints.problem import Problem

rec = Recorder(a.out)
rng = random.Random(a.seed * 1000003 + a.part)
INF = 10**9


def log2(r):
    return fx(math.log2(r)) if r > 0 and math.isfinite(r) else OFF


class Scripted(Problem):
    def __init__(self, k, xs):
        super().__init__("scripted%d" % k)
        n = len(xs[0])
        self.k, self.xs, self.i = k, xs, 0
        self.x, self.sol, self.error, self.r = (np.zeros(n) for _ in range(4))
        self.r += 1.0

    def initialize(self, dt, state, engine):
        pass

    def finalize_solution(self):
        return self.sol

    def sweep(self):
        nxt = self.xs[min(self.i, len(self.xs) - 1)]
        self.i += 1
        rec.emit(dict(op="sweep", k=self.k, x=list(nxt), x0=fxv(self.x), sol=fxv(self.sol), r=max({log2(v) for v in self.r}) if len(set(self.r)) == 1 else OFF))
        self.x[:] = nxt


def run(c, xs):
    """xs[i][k]: the iterate of problem k in iteration i"""
    E = A.create_engine()
    p = E.params
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance = c["max"], c["abs4"] / 4, c["relN"] / c["relD"]
    p.too_small_merit_change, p.nu_increase, p.nu_reduce = c["too4"] / 4, 2.0 ** c["up"], 0.5 ** c["down"]
    n = len(xs[0])
    ps = [Scripted(k + 1, [it[k] for it in xs]) for k in range(n)]
    rec.begin(sizes=[len(q.x) for q in ps], c=c)
    prof = rng.random() < 0.7
    prefix = rng.choice(["", "post_stabilization_"])
    perf = {"other": 1}
    out, _ = call(SOLVER.solve, E, ps, perf, prof, prefix)
    def merit(v):
        return INF if v == np.inf else fx(v, 4)
    keys = {prefix + s for s in ("residuals", "iterations", "exitcode", "solver_time")}
    rec.emit(dict(op="exit", out=out, prof=prof, x=[fxv(q.x) for q in ps], sol=[fxv(q.sol) for q in ps], r=[max({log2(v) for v in q.r}) for q in ps],
                  exitcode=int(perf.get(prefix + "exitcode", -9)), iterations=int(perf.get(prefix + "iterations", -9)),
                  res=[merit(v) for v in perf.get(prefix + "residuals", [])], keys=keys <= set(perf) if prof else not set(perf) == {"other"}))


if a.scripts:
    for i, line in enumerate(open(a.scripts)):
        if i % a.parts == a.part:
            s = json.loads(line)
            run(s["c"], s["xs"])
for _ in range(400 if a.tier == "quick" else 6000):
    n = rng.randint(1, 3)
    dims = [rng.randint(1, 5) for _ in range(n)]
    amp = rng.choice([2, 5, 20])
    m = rng.randint(1, 14)
    decay = rng.random() < 0.6
    cur = [[0] * d for d in dims]
    xs = []
    for i in range(m):
        row = []
        for k in range(n):
            lim = max(0, amp - (i if decay else 0))
            cur[k] = [v + rng.randint(-lim, lim) if rng.random() < 0.8 else v for v in cur[k]] if rng.random() < 0.9 else cur[k]
            row.append(list(cur[k]))
        xs.append(row)
    run(dict(max=m, abs4=rng.choice([0, 1, 2, 4, 9]), too4=rng.choice([0, 1, 4, 12]), relN=rng.choice([0, 1, 2, 3]), relD=4, up=rng.choice([0, 1, 2]), down=rng.choice([1, 1, 2])), xs)
rec.close()
