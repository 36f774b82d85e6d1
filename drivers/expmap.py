"""The exponential map at whole numbers of quarter turns about rational axes."""
import itertools
import math
import random
from vlib import *
a_ = args()
import numpy as np
import rainbow.math.expmap as EX
import rainbow.math.quaternion as Q

rec = Recorder(a_.out, chunk=250)
rng = random.Random(a_.seed * 1000003 + a_.part)
AXES = [m for m in itertools.product(range(-2, 3), repeat=3) if sum(c * c for c in m) in (1, 9)]
jobs = [(m, k) for m in AXES for k in range(0, 9)]
rng.shuffle(jobs)
if a_.tier == "quick":
    jobs = jobs[:90]
F = lambda x: np.array(x, dtype=float)
for m, k in jobs:
    L = math.isqrt(sum(c * c for c in m))
    n = F(m) / L
    tiny = 1e-9 if k == 0 and rng.random() < 0.5 else 0.0
    v = (k * math.pi / 2 + tiny) * n
    rec.begin(m=list(m), L=L, k=k)
    keep = v.copy()
    out, r = call(lambda: (EX.exp(v, False), EX.exp(v) if rng.random() < 0.5 else EX.to_quaternion(v), EX.to_matrix(v), EX.reparameterization(v)))
    ok = out == "ok"
    rec.emit(dict(op="exp", out=out, exact=frv(r[0], 4096) if ok else [], exp=frv(r[1], 4096) if ok else [], mat=frv(np.ravel(r[2]), 4096) if ok else [],
                  rep=frv(r[3], 1024) if ok else [], same=bool((v == keep).all())))
    for sign in (1, -1):
        q = sign * Q.Ru(k * math.pi / 2, n) if k % 8 in (1, 3, 5, 7) or rng.random() < 0.5 else sign * F({0: [1, 0, 0, 0], 2: [0, *n], 4: [-1, 0, 0, 0], 6: [0, *-n]}[k % 8])
        out, r = call(EX.log if rng.random() < 0.5 else EX.to_expmap, q)
        rec.emit(dict(op="log", out=out, pure=bool(q[0] == 0), v=frv(r, 1024) if out == "ok" else []))
    for _ in range(2):
        w = [rng.randint(-2, 2) for _ in range(3)]
        if k % 4:
            out, r = call(EX.dvdt, F(w), v)
            rec.emit(dict(op="rate", out=out, w=w, v=frv(r, 1024) if out == "ok" else []))
        elif k == 0:
            v0 = (tiny or 1e-9) * n
            out, r = call(EX.dvdt, F(w), v0)
            rec.emit(dict(op="rate", out=out, w=w, v=frv(r, 1024) if out == "ok" else []))
    for i in range(3):
        out, r = call(EX.dQdv_i, v, i)
        rec.emit(dict(op="dq", out=out, i=i + 1, d=frv(r, 256) if out == "ok" else []))
        out, r = call(EX.dRdv_i, v, i)
        rec.emit(dict(op="dr", out=out, i=i + 1, d=frv(np.ravel(r), 256) if out == "ok" else []))
    # very short rotation vectors: the vector part is half the vector
    e = rng.choice([1e-6, 1e-7, 1e-9])
    out, r = call(lambda: EX.exp(e * n)[1:] / e)
    rec.emit(dict(op="tiny", out=out, v=frv(r, 4096) if out == "ok" else []))
    # quaternions that are the identity up to rounding
    q = Q.unit(F([rng.randint(-9, 9) for _ in range(3)] + [rng.randint(1, 9)]))
    q = Q.prod(q, Q.conjugate(q))
    out, r = call(EX.log, q)
    rec.emit(dict(op="unit", out=out, v=frv(r, 1024) if out == "ok" else []))
rec.close()
