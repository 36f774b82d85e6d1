"""Scenes recorded by the real USD recorder; saved files are read back with the USD library itself."""
import contextlib
import io
import os
import random
import shutil
import tempfile
from vlib import *
a_ = args()
import numpy as np
from pxr import Usd, UsdGeom
from worlds import cube_rotations
from rainbow.util.USD import USD

rec = Recorder(a_.out, chunk=120)
rng = random.Random(a_.seed * 1000003 + a_.part)
c = rng.choice
N = 60 if a_.tier == "quick" else 1000
F = lambda v: np.array(v, dtype=float)
ROTS = cube_rotations()
K = 1024
scratch = tempfile.mkdtemp(prefix="verif_usd_")
NAMES = ["ball", "Box_1", "b", "body_0_25_2026"]


def surface():
    n = rng.randint(3, 6)
    V = [[rng.randint(-512, 512) for _ in range(3)] for _ in range(n)]
    T = [rng.sample(range(n), 3) for _ in range(rng.randint(1, 4))]
    return V, T


def read(path, ts):
    st = Usd.Stage.Open(path)
    prims = []
    for prim in st.TraverseAll():
        if not prim.IsA(UsdGeom.Mesh):
            continue
        m = UsdGeom.Mesh(prim)
        idx, cnt = list(m.GetFaceVertexIndicesAttr().Get() or []), list(m.GetFaceVertexCountsAttr().Get() or [])
        T, at = [], 0
        for k in cnt:
            T.append([int(i) for i in idx[at:at + k]])
            at += k
        if at != len(idx):
            T.append([-1])
        d = dict(name=prim.GetName(), T=T, V=[fxv(p, K) for p in (m.GetPointsAttr().Get() if m.GetPointsAttr().Get() is not None else [])], at=[])
        for t in ts:
            X = np.array(m.ComputeLocalToWorldTransform(t / 4))       # row vectors
            P = m.GetPointsAttr().Get(t / 4)
            d["at"].append(dict(r=frv(X[3, :3], K), m=fxv(X[:3, :3].T.ravel()), V=[frv(p, K) for p in (P if P is not None else [])]))
        prims.append(d)
    return dict(prims=prims, start=fx(st.GetStartTimeCode(), 4), end=fx(st.GetEndTimeCode(), 4), fps=fx(st.GetFramesPerSecond()))


try:
    for it in range(N):
        rec.begin()
        path = os.path.join(scratch, "s%d.%s" % (it, c(["usda", "usd", "usdc"])))
        out, U = call(USD, path)
        if out != "ok":
            rec.emit(dict(op="save", out=out))
            continue
        known, clock = {}, 0

        def quiet(f, *a):
            with contextlib.redirect_stdout(io.StringIO()):
                return call(f, *a)
        for _ in range(rng.randint(6, 25)):
            k = rng.randrange(12)
            name = c(list(known) or NAMES) if rng.random() < .85 else c(NAMES)
            kind = known.get(name, ("", 0))[0]
            clock = max(0, clock + c([0, 1, 2, 4, 4, 4, -3]))
            t = clock
            if k < 3:
                name = c(NAMES)
                V, T = surface()
                if k == 0 and name not in known:
                    X = F(V) / K
                    out, _ = call(U.add_mesh, name, X if rng.random() < .7 else X.tolist(), np.array(T) if rng.random() < .7 else T)
                    if out == "ok":
                        known[name] = ("mesh", len(V))
                    rec.emit(dict(op="mesh", name=name, V=V, T=T, out=out))
                elif k:
                    out, _ = call(U.add_rigid_body, name, F(V) / K, np.array(T))
                    if out == "ok":
                        known[name] = ("rigid", len(V))
                    rec.emit(dict(op="rigid", name=name, V=V, T=T, out=out))
            elif k < 8 and (kind != "mesh" or rng.random() < .2):
                R, q = c(ROTS)
                r = [rng.randint(-2048, 2048) for _ in range(3)]
                good = rng.random() < .93
                s = c([1, -1])
                out, _ = call(U.update_rigid_body, name, F(r) / K if good else F(r[:2]), s * F(q), t / 4)
                rec.emit(dict(op="move", name=name, r=r, m=[int(round(v)) for v in np.ravel(R)], t=t, good=good, out=out))
            elif k < 8:
                V = [[rng.randint(-512, 512) for _ in range(3)] for _ in range(known[name][1])]
                if rng.random() < .1:
                    name = "nobody"
                out, _ = call(U.set_mesh_positions, name, F(V) / K, t / 4)
                rec.emit(dict(op="bend", name=name, V=V, t=t, out=out))
            elif k == 8:
                t = rng.randint(0, clock + 4)
                out, P = call(U.get_mesh_positions, name, t / 4)
                rec.emit(dict(op="look", name=name, t=t, V=[frv(p, K) for p in P] if out == "ok" else [], out=out))
            elif k == 9:
                d = rng.randint(0, 400)
                rec.emit(dict(op="span", d=d, out=quiet(U.set_animation_time, d / 4)[0]))
            elif k == 10:
                d = rng.randint(1, 120)
                rec.emit(dict(op="fps", d=d, out=quiet(U.set_frames_per_second, d)[0]))
            elif rng.random() < .4:
                k = 99
            if k == 99 or _ == 5:
                out, _x = call(U.save)
                ts = sorted(rng.sample(range(clock + 6), min(clock + 6, 8)))
                out2, d = call(read, path, ts)
                rec.emit(dict(op="save", out=out if out != "ok" else out2, ts=ts, **(d if out2 == "ok" else {})))
        out, _x = call(U.save)
        ts = list(range(0, clock + 5, max(1, (clock + 5) // 12)))
        out2, d = call(read, path, ts)
        rec.emit(dict(op="save", out=out if out != "ok" else out2, ts=ts, **(d if out2 == "ok" else {})))
        if os.path.exists(path):
            os.unlink(path)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
rec.close()
