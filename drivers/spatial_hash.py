"""The spatial hash over several frames."""
import random
from vlib import *
a = args()
import numpy as np
real_randint = np.random.randint
SMALL = {}


def randint(low, high=None, size=None, *r, **k):          # the offset table has 10^9 entries (4 to 8 GB)
    if isinstance(size, tuple) and int(np.prod(size)) > 10**8:
        class Table:
            def __getitem__(self, ix):
                return (int(ix[0]) * 7919 + int(ix[1]) * 104729 + int(ix[2]) * 1299709) % low
        return Table()
    return real_randint(low, high, size, *r, **k)


np.random.randint = randint
import rainbow.geometry.spatial_hashing as SH
from rainbow.geometry.aabb import AABB

rec = Recorder(a.out, chunk=700)
rng = random.Random(a.seed * 1000003 + a.part)
quick = a.tier == "quick"


def grid():
    rec.begin(kind="grid")
    g = SH.HashGird()
    g.set_hash_table_size(rng.choice([1, 2, 5, 1000]))
    if rng.random() < 0.4:
        g.increment_hash_table_size(rng.choice([1, 3, 50]))
    t, uid = rng.choice([0, 0, 1]), 0
    R = rng.choice([1, 2, 3, 400])
    seen = {}
    for _ in range(rng.randint(3, 45)):
        if rng.random() < 0.15:
            t += rng.choice([1, 1, 2, 7])
        c = [rng.randint(-R, R) for _ in range(3)]
        uid += 1
        tri, body = uid, rng.randint(0, 3)
        box = AABB([uid, 0, 0], [uid + 1, 1, 1])
        hv = g.get_prefect_hash_value(*c)
        rec.emit(dict(op="hash", same=bool(seen.setdefault(tuple(c), hv) == hv), int=isinstance(hv, int)))
        out, r = call(g.insert, c[0], c[1], c[2], tri, body, box, t)
        ok = r is None or all(int(b.min_point[0]) == x for x, _, b in r)
        rec.emit(dict(op="insert", c=c, o=[tri, body], t=t, out=out, got=[[int(x), int(y)] for x, y, _ in r] if r is not None else [], aabb=bool(ok)))


def cell():
    rec.begin(kind="cell")
    t = rng.choice([0, 0, 2])
    c = SH.HashCell() if t == 0 else SH.HashCell(t)
    for i in range(rng.randint(1, 12)):
        if rng.random() < 0.25:
            t += rng.choice([1, 1, 5])
        c.add((i, 1), t)
        rec.emit(dict(op="cell", c=[0, 0, 0], o=[i, 1], t=t, objs=[list(o) for o in c.object_list], size=int(c.size), stamp=int(c.time_stamp)))


def size():
    rec.begin(kind="size")
    E = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (6, 8, 10)]
    V, T, tot, n = [], [], 0, 0
    for k in range(rng.randint(1, 5)):
        p, q, h = rng.choice(E)
        z = rng.randint(-9, 9)
        V += [[0, 0, z], [p, 0, z], [p, q, z]]
        T.append([3 * k, 3 * k + 1, 3 * k + 2]); tot += p + q + h; n += 3
    v = SH.HashGird.compute_optial_cell_size(np.array(V, dtype=float), T)
    rec.emit(dict(op="size", v=fr(v, 1000), want=round(2200 * tot / n)))


for i in range(150 if quick else 2000):
    grid()
for i in range(60 if quick else 300):
    cell(); size()
rec.close()
