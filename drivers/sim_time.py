"""Calls of simulate() on the rigid and the soft simulator, with a recording stepper and with the real one."""
import random
from vlib import *
a = args()
import numpy as np
import worlds as W

RB, SB = W.rigid_api(), W.soft_api()
rec = Recorder(a.out)
rng = random.Random(a.seed * 1000003 + a.part)
N = 40 if a.tier == "quick" else 400
TICK, DY = 10**8, 2**20


class Probe:
    """A stepper that records the steps it is asked for."""

    def __init__(self):
        self.dts, self.log = [], []

    def step(self, dt, engine, profiling_on):
        if len(self.dts) > 5000:
            raise RuntimeError("too many steps")
        self.dts.append(float(dt))
        if profiling_on:
            self.log.append({"dt": float(dt)})


def scene(kind):
    if kind == "rigid":
        E = W.rigid_engine()
        contact = rng.random() < 0.6
        W.rigid_box(E, "ground", (8, 2, 8), (0, -1, 0), fixed=True)
        W.rigid_box(E, "b1", (2, 2, 2), (0, 1 - 0.01 if contact else 5, 0), v=(rng.randint(-2, 2), 0, 1), w=(0, rng.randint(0, 2), 0))
        RB.create_gravity_force(E, "g", 9.81, np.array([0, 1, 0.0]))
        RB.connect_force(E, "b1", "g")
        if rng.random() < 0.4:
            W.rigid_box(E, "b2", (2, 4, 2), (4, 8, 0), w=(1, 2, 0))
            W.rigid_box(E, "b3", (2, 4, 2), (6, 8, 0))
            RB.create_hinge(E, "h")
            RB.set_hinge(E, "h", "b2", "b3", np.array([5, 8, 0.0]), np.array([0, 0, 1.0]), mode="world")
        E.params.use_pre_stabilization = rng.random() < 0.5
        E.params.use_post_stabilization = rng.random() < 0.3
        E.params.use_bounce = rng.random() < 0.3
        return E
    E = W.soft_engine()
    E.params.use_spatial_hashing = rng.random() < 0.5
    W.soft_body(E, "b1", (1, 1, 1), v=(rng.randint(-2, 2), 0, 1))
    if rng.random() < 0.5:
        W.soft_body(E, "b2", (1, 1, 2), c=(4, 0, 0))
    return E


def steps_of(log):
    """Records of steps (the soft stepper also logs its own construction)."""
    return [r for r in log if "dt" in r]


def api(kind):
    return RB if kind == "rigid" else SB


def state(kind, E, s=10**5):
    return W.rigid_state(E, s) if kind == "rigid" else W.soft_state(E, s)


def stepper(kind, E):
    if kind == "rigid":
        import rainbow.simulators.prox_rigid_bodies.steppers as S
        return S.SemiImplicitStepper()
    return None


def one(kind, E, T, h, prof, probe, unit=TICK):
    A = api(kind)
    E.params.time_step = h / unit
    args_ = (E, T / unit) + ((prof,) if prof or rng.random() < 0.5 else ())
    log0 = [] if E.stepper is None else E.stepper.log
    n0 = len(steps_of(log0))
    d0 = len(E.stepper.dts) if probe else 0
    out, _ = call(A.simulate, *args_, timeout=100)
    log = steps_of([] if E.stepper is None else A.get_log(E))
    ok = out == "ok"
    rec.emit(dict(op="simulate", T=T, h=h, prof=bool(prof), out=out, loglen=len(log), seen=bool(probe),
                  dts=[fx(x, unit, 0.4) for x in E.stepper.dts[d0:]] if probe else [], tol=1 if unit == TICK else 0,
                  world=state(kind, E), logseen=bool(prof and ok), logdts=[fx(r.get("dt", -1), unit, 0.4) for r in log[n0:]] if prof else []))
    return out


def durations():
    c = rng.random()
    if c < 0.35:       # decimal multiples: the classical round-off traps
        h = rng.choice([10**6, 10**5, 5 * 10**5, 3 * 10**5, 7 * 10**5, 2 * 10**6, 10**6 // 3, 10**6])
        return h * rng.randint(1, 60), h, TICK
    if c < 0.6:        # a remainder
        h = rng.choice([10**6, 10**5, 123457, 3 * 10**5])
        return h * rng.randint(0, 40) + rng.randint(h // 1000 + 1, h - 1), h, TICK
    if c < 0.8:        # dyadic: exact in floating point
        h = rng.choice([1, 3, 8, 16, 64])
        return rng.randint(1, 50 * h), h, 4096
    if c < 0.9:        # shorter than one step
        h = rng.choice([10**6, 10**7])
        return rng.randint(100, h - 1), h, TICK
    return rng.choice([0, -1, -10**6, -5]), 10**6, TICK


for it in range(N):
    kind = "rigid" if it % 3 else "soft"
    # ---- recording stepper
    E = scene(kind)
    E.stepper = Probe()
    rec.begin(world=state(kind, E))
    for _ in range(6):
        T, h, u = durations()
        one(kind, E, T, h, rng.random() < 0.5, True, u)
for it in range(N // 4):
    kind = "rigid" if it % 4 else "soft"
    rng2 = rng.getstate()
    mk = lambda: (rng.setstate(rng2), scene(kind))[1]
    h = rng.choice([2**13, 2**12, 2**14]) if kind == "rigid" else rng.choice([2**10, 2**9])     # dyadic: pieces are exact
    n = rng.choice([3, 4, 6, 10]) if kind == "rigid" else rng.choice([3, 5])
    A = api(kind)
    rng2 = rng.getstate()
    E = mk()
    E.stepper = stepper(kind, E)
    rec.begin(world=state(kind, E))
    after = rng.getstate()
    if kind == "rigid":
        keep, E.stepper = E.stepper, None
        out, _ = call(A.simulate, E, 0.01)
        rec.emit(dict(op="same", what="simulate_without_stepper_rejected", a=[int(out == "ValueError")] + state(kind, E), b=[1] + state(kind, mk()), tol=0))
        E.stepper = keep
    # one call with profiling
    one(kind, E, n * h, h, True, False, DY)
    ref = state(kind, E)
    # the same duration in pieces, without profiling
    F = mk()
    F.stepper = stepper(kind, F)
    F.params.time_step = h / DY
    k = (it % (n - 1)) + 1
    o1, _ = call(A.simulate, F, k * h / DY)
    o2, _ = call(A.simulate, F, (n - k) * h / DY)
    rec.emit(dict(op="same", what="pieces_equal_one_call", a=ref, b=state(kind, F), tol=20))
    # a fresh engine that gets the state reached after the first piece has the same future
    F = mk()
    F.stepper = stepper(kind, F)
    F.params.time_step = h / DY
    call(A.simulate, F, k * h / DY)
    G = mk()
    G.stepper = stepper(kind, G)
    G.params.time_step = h / DY
    if kind == "rigid":
        W.rigid_copy_state(F, G)
    else:
        for nme, b in F.bodies.items():
            G.bodies[nme].x, G.bodies[nme].u = np.copy(b.x), np.copy(b.u)
    call(A.simulate, G, (n - k) * h / DY)
    rec.emit(dict(op="same", what="future_depends_on_body_state_only", a=ref, b=state(kind, G), tol=20))
    # profiling off, one call
    G = mk()
    G.stepper = stepper(kind, G)
    G.params.time_step = h / DY
    call(A.simulate, G, n * h / DY, False)
    rec.emit(dict(op="same", what="profiling_changes_nothing", a=ref, b=state(kind, G), tol=20))
    nlog = 0 if G.stepper is None else len(steps_of(A.get_log(G)))
    rec.emit(dict(op="same", what="no_log_without_profiling", a=[nlog], b=[0], tol=0))
    rng.setstate(after)
rec.close()
