"""Regular grids: indices, interpolation, gradients, distance fields and curvature."""
import random
from vlib import *
a = args()
import numpy as np
import rainbow.geometry.grid3 as GRID
import rainbow.geometry.surface_mesh as SM
import rainbow.geometry.mean_curvature as MC

rec = Recorder(a.out, chunk=150)
rng = random.Random(a.seed * 1000003 + a.part)
N = 40 if a.tier == "quick" else 600
for it in range(N):
    curv = it % 3 == 0
    n = [rng.randint(2, 5) for _ in range(3)] if not curv else [rng.randint(3, 5) for _ in range(3)]
    h2 = [rng.choice([1, 2, 4]) for _ in range(3)]
    lo = [rng.randint(-16, 16) / 2 for _ in range(3)]
    hi = [l + h / 2 * (m - 1) for l, h, m in zip(lo, h2, n)]
    out, g = call(GRID.Grid, np.array(lo), np.array(hi), *n)
    if out != "ok":
        rec.begin(n=[1, 1, 1], v=[0], lo=[0, 0, 0], h2=[1, 1, 1])
        rec.emit(dict(op="index", out=out))
        continue
    size = n[0] * n[1] * n[2]
    if rng.random() < 0.25:
        f = [rng.randint(-2, 2) for _ in range(3)]
        v = [f[0] * (x % n[0]) + f[1] * (x // n[0] % n[1]) + f[2] * (x // (n[0] * n[1])) for x in range(size)]
    elif curv and rng.random() < 0.5:
        v = [((x % n[0]) - 1) ** 2 - ((x // n[0] % n[1]) - 2) ** 2 * rng.choice([0, 1]) + (x // (n[0] * n[1])) for x in range(size)]
    else:
        v = [rng.randint(-3, 3) for _ in range(size)]
    g.values = np.array(v, dtype=float) if rng.random() < 0.5 else np.array(v, dtype=float).reshape(-1, 1)
    rec.begin(n=n, v=v, lo=[int(l * 8) for l in lo], h2=h2)
    sp = [h / 2 for h in h2]
    for _ in range(8):
        q = [rng.choice([rng.randint(-9, 4 * (m - 1) + 9), rng.randint(0, 4 * (m - 1)), 4 * rng.randint(0, m - 1)]) for m in n]
        p = np.array([l + s * x / 4 for l, s, x in zip(lo, sp, q)])
        out, r = call(lambda: (g.get_enclosing_cell_idx(p), GRID.get_value(g, p), GRID.get_gradient(g, p)))
        ok = out == "ok"
        rec.emit(dict(op="query", out=out, q=q, cell=[int(x) for x in r[0]] if ok else [0], val=fx(np.ravel(r[1])[0], 64) if ok else 0, grad=fxv(r[2], 64) if ok else [0]))
    rows = []
    for _ in range(12):
        c = [rng.randint(-1, m) if rng.random() < 0.5 else rng.randint(0, m - 1) for m in n]
        ok = all(0 <= x < m for x, m in zip(c, n))
        rows.append((c, ok))

    def index():
        out = []
        for c, ok in rows:
            out.append(dict(c=c, valid=bool(g.is_valid_node_index(*c)), x=fxv(g.get_node_coord(*c), 8), lin=int(g.get_linear_index(*c)),
                            val=fx(np.ravel(g.get_node_value(*c))[0]) if ok else 0))
        return out, [fxv(x, 8) for x in GRID.get_nodes_array(g)]
    out, r = call(index)
    rec.emit(dict(op="index", out=out, rows=r[0] if out == "ok" else [], nodes=r[1] if out == "ok" else []))
    for _ in range(6):
        bd = rng.choice([0, 1, 2, 4, 8]) / 8
        x = [rng.choice([l + bd, h - bd, (l + h) / 2, l + bd - 0.125, h - bd + 0.125, (l + h) / 2, (l + h) / 2, l, h]) for l, h in zip(lo, hi)]
        if any(abs(c * 8 - round(c * 8)) > 0 for c in x):
            x = [round(c * 8) / 8 for c in x]
        if bd == 0.5 and rng.random() < 0.5:
            out, r = call(GRID.is_inside, g, np.array(x))
        else:
            out, r = call(GRID.is_inside, g, np.array(x), bd)
        rec.emit(dict(op="inside", out=out, x=fxv(x, 8), bd=int(bd * 8), r=bool(r) if out == "ok" else False))
    if curv:
        out, k = call(MC.create_from_sdf, g)
        ok = out == "ok"
        rec.emit(dict(op="curv", out=out, k=frv(k.values, 64) if ok else [], n=[int(k.I), int(k.J), int(k.K)] if ok else [], lo=fxv(k.min_coord, 8) if ok else []))
    # the user's own function, sampled at the nodes
    f = [rng.randint(-2, 2) for _ in range(5)]
    h = GRID.Grid(np.array(lo), np.array(hi), *n)
    out, _ = call(GRID.eval_on_grid, h, lambda x: f[0] * x[0] + f[1] * x[1] + f[2] * x[2] + f[3] + f[4] * x[0] * x[1])
    rec.emit(dict(op="eval", out=out, f=f, v=fxv(h.values, 64) if out == "ok" else []))
    # distance field of a box
    half = [rng.randint(1, 4) / 2 for _ in range(3)]
    r0 = [rng.randint(-3, 3) for _ in range(3)]
    bd = rng.choice([0, 1, 2, 2]) / 2
    m = [rng.choice([2, 3, 5, 9]) for _ in range(3)]
    V, F = SM.create_box(*[2 * x for x in half])
    args_ = (V + np.array(r0), F, *m)
    out, s = call(GRID.create_signed_distance, *args_) if bd == 0.5 and rng.random() < 0.5 else call(GRID.create_signed_distance, *args_, bd)
    ok = out == "ok"
    rec.emit(dict(op="sdf", out=out, half=[int(8 * x) for x in half], r=[8 * x for x in r0], bd=int(8 * bd), n=m, gn=[int(s.I), int(s.J), int(s.K)] if ok else [],
                  lo=fxv(s.min_coord, 8) if ok else [], hi=fxv(s.max_coord, 8) if ok else [], v=frv(s.values, 64) if ok else []))
    if it % 6 == 0:
        w = [2, 3, 4]
        w[rng.randrange(3)] = rng.choice([1, 0, -2])
        rec.emit(dict(op="refuse", out=call(GRID.Grid, np.zeros(3), np.ones(3), *w)[0]))
        top = np.ones(3)
        top[rng.randrange(3)] = -1
        rec.emit(dict(op="refuse", out=call(GRID.Grid, np.zeros(3), top, 3, 3, 3)[0]))
        rec.emit(dict(op="refuse", out=call(GRID.is_inside, g, np.zeros(3), -0.25)[0]))
        rec.emit(dict(op="refuse", out=call(GRID.create_signed_distance, V, F, 3, 3, 3, -0.5)[0]))
rec.close()
