"""Contact graphs of rigid and soft contacts and their colourings."""
import random, types
from vlib import *
a = args()
import numpy as np
import rainbow.simulators.proximal_contact.blocking as BLOCKING

rec = Recorder(a.out, chunk=700)
rng = random.Random(a.seed * 1000003 + a.part)
NS = types.SimpleNamespace
quick = a.tier == "quick"


def case(kind, K):
    cps, B = [], []
    if kind == "soft_body":
        off, bodies = 0, []
        for j in range(rng.randint(1, 4)):
            n = rng.randint(4, 9)
            T = np.array([rng.sample(range(n), 4) for _ in range(rng.randint(1, 5))])
            bodies.append(NS(idx=j, T=T, offset=off))
            B.append(dict(T=T.tolist(), off=off))
            off += n
        con = []
        for _ in range(K):
            x, y = rng.choice(bodies), rng.choice(bodies)
            ta, tb = rng.randrange(len(x.T)), rng.randrange(len(y.T))
            con.append(NS(bodyA=x, bodyB=y, idx_tetA=ta, idx_tetB=tb))
            cps.append([x.idx + 1, ta, y.idx + 1, tb])
    else:
        nb = rng.randint(2, 12)
        bodies = [NS(idx=i) for i in range(nb)]
        con = []
        for _ in range(K):
            x, y = rng.sample(bodies, 2)
            con.append(NS(bodyA=x, bodyB=y))
            cps.append([x.idx, y.idx])
    rec.begin(type=kind, cps=cps, B=B)
    default = kind == "rigid_body" and rng.random() < 0.3
    out, G = call(BLOCKING.build_contact_graph, con) if default else call(BLOCKING.build_contact_graph, con, kind)
    rec.emit(dict(op="graph", out=out, nodes=[int(k) for k in G.nodes()] if G is not None else [], edges=[sorted((int(i), int(j))) for i, j in G.edges()] if G is not None else []))
    if out != "ok":
        return
    out, C = call(BLOCKING.greedy_graph_coloring, G)
    rec.emit(dict(op="greedy", out=out, groups=[[[int(s), int(e)] for s, e in g] for g in C.values()] if C is not None else []))
    for it in (None, rng.choice([0, 1, 2])):
        np.random.seed(rng.randrange(10**6))
        out, C = call(BLOCKING.random_graph_coloring, G) if it is None else call(BLOCKING.random_graph_coloring, G, it)
        rec.emit(dict(op="random", out=out, groups=[[int(k) for k in g] for g in C.values()] if C is not None else []))


for i in range(250 if quick else 3000):
    case("soft_body" if i % 2 else "rigid_body", rng.choice([0, 1, 2, 3, 4, 6, 9, 14]))
case("cloth", 3); case("rigid", 2); case("", 0)
rec.close()
