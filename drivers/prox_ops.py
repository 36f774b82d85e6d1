"""Proximal operators of both simulators on lattice ellipsoids."""
import random, types
from vlib import *
a = args()
import numpy as np
import rainbow.simulators.proximal_contact.proximal_operators as P
import rainbow.simulators.prox_rigid_bodies.prox_operators as RP
import rainbow.simulators.prox_rigid_bodies.api as RA
import rainbow.simulators.prox_soft_bodies.api as SA

rec = Recorder(a.out, chunk=2500)
rng = random.Random(a.seed * 1000003 + a.part)
engines = [RA.create_engine(), SA.create_engine()]


def run(fn, axes, z4, xn, np64):
    T = np.float64 if np64 else float
    z = [T(v / 4) for v in z4]
    mu = [T(v / xn) if xn > 0 else T(0.5) for v in axes]
    if fn == "sphere":
        f = lambda p: P.prox_sphere(*p, mu[0], T(xn))
    elif fn == "rigid_sphere":
        f = lambda p: RP.prox_sphere(*p, mu[0], T(xn))
    elif fn == "origin":
        f = lambda p: P.prox_origin(*p, mu[0], T(xn))
    else:
        f = lambda p: P.prox_ellipsoid(rng.choice(engines), *p, *mu, T(xn))
    out, x = call(f, z, timeout=5)
    _, x2 = call(f, [T(v) for v in x], timeout=5) if x is not None else (None, None)
    rec.emit(dict(op="prox", out=out, a=list(axes), z=list(z4), xn=fx(xn, 8), x=frv(x, 1024) if x is not None else [], x2=frv(x2, 1024) if x2 is not None else []))


N = 1200 if a.tier == "quick" else 12000
for fn in ("sphere", "rigid_sphere", "origin", "ellipsoid"):
    for k in range(N if fn == "ellipsoid" else N // 2):
        if k % 200 == 0:
            rec.begin(fn=fn)
        m = rng.choice([2, 4, 12])
        axes = [rng.choice([0, 1, 1, 2, 3, rng.randint(1, m)]) if rng.random() < 0.8 else m for _ in range(3)]
        if fn != "ellipsoid" or rng.random() < 0.1:
            axes = [axes[0]] * 3
        r = rng.choice([8, 24, 64])
        z4 = [rng.randint(-r, r) if rng.random() < 0.85 else 0 for _ in range(3)]
        if rng.random() < 0.1:                   # on the boundary along an axis
            i = rng.randrange(3)
            z4 = [4 * axes[j] * rng.choice([1, -1]) if j == i else 0 for j in range(3)]
        run(fn, axes, z4, rng.choice([1, 2, 0.5, 4, 0.125, 8, 1, 0, -1]), rng.random() < 0.5)
rec.close()
