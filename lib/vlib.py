"""Shared helpers for the drivers that run the real code (interpreter: /opt/venv/bin/python).

A driver exercises the code of /repo and records events (one JSON object per line).  All numbers
in events are 32-bit integers: real values are projected on a lattice ("fx").  The verdict on every
event is taken by a TLA+ trace specification under TLC, never here.
"""
import json, os, random, signal, sys, math, warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

OFF = 1 << 30          # "not a number we can represent": off the lattice, infinite, NaN, too large
LIM = (1 << 30) - 1


def fx(x, scale=1, tol=1e-6):
    """Project a real on the lattice Z/scale.  OFF when it is further than tol from it."""
    try:
        x = float(x)
    except Exception:
        return OFF
    if not math.isfinite(x):
        return OFF
    y = x * scale
    if abs(y) > LIM:
        return OFF
    r = round(y)
    if abs(y - r) > tol * max(1.0, 1e-3 * abs(y)):
        return OFF
    return int(r)


def fr(x, scale):
    """Round a real to Z/scale (no lattice requirement)."""
    try:
        x = float(x)
    except Exception:
        return OFF
    if not math.isfinite(x) or abs(x * scale) > LIM:
        return OFF
    return int(round(x * scale))


def fxv(v, scale=1, tol=1e-6):
    import numpy as np
    return [fx(a, scale, tol) for a in np.asarray(v, dtype=float).ravel()]


def frv(v, scale):
    import numpy as np
    return [fr(a, scale) for a in np.asarray(v, dtype=float).ravel()]


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


HANGS = [0]


def call(fn, *a, timeout=60, **k):
    """Run code under test.  Returns (outcome, value): outcome is "ok", "hang" or the exception's class name."""
    if HANGS[0] >= 2:
        timeout = min(timeout, 2)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        v = fn(*a, **k)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", v
    except Hang:
        HANGS[0] += 1
        if HANGS[0] > 15 and Recorder.last is not None:     # enough seen: end the run with what was recorded
            Recorder.last.emit(dict(op="crash", exc="hang", at="", fn=getattr(fn, "__name__", "")))
            Recorder.last.close()
            sys.stdout.flush()
            os._exit(0)
        return "hang", None
    except Exception as e:                      # noqa
        return type(e).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _crash(tp, e, tb):
    """An exception that nobody expected: when the code under test raised it, that is an observation."""
    import traceback
    traceback.print_exception(tp, e, tb)
    fs = traceback.extract_tb(tb)
    rec = Recorder.last
    if rec is not None and fs and issubclass(tp, Exception):
        # the innermost frame that is ours or the code under test's (libraries called by it are skipped)
        own = [f for f in fs if os.path.realpath(f.filename).startswith((os.path.realpath(REPO) + os.sep, HERE + os.sep))]
        if own and os.path.realpath(own[-1].filename).startswith(os.path.realpath(REPO) + os.sep):
            rec.emit(dict(op="crash", exc=tp.__name__, at=os.path.relpath(os.path.realpath(own[-1].filename), os.path.realpath(REPO)), fn=own[-1].name))
            rec.close()
            sys.stdout.flush()
            os._exit(0)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.excepthook = _crash


class Recorder:
    last = None
    """Writes event files in chunks; a chunk is validated by one TLC run."""

    def __init__(self, outdir, name="t", chunk=2500):
        self.outdir, self.name, self.chunk = outdir, name, chunk
        self.n, self.f, self.k = 0, None, 0
        self.events = 0
        self.traces = 0
        self.ops = {}
        self.samples = []
        Recorder.last = self

    def begin(self, **kw):
        """Start a new trace (history): may open a new chunk."""
        if self.f is None or self.n >= self.chunk:
            self._roll()
        self.traces += 1
        self.emit(dict(op="reset", **kw))

    def _roll(self):
        if self.f:
            self.f.close()
        self.k += 1
        self.f = open(os.path.join(self.outdir, f"{self.name}{self.k:04d}.ndjson"), "w")
        self.n = 0

    def emit(self, ev):
        if self.f is None:
            self._roll()
        self.f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        self.n += 1
        self.events += 1
        self.ops[ev["op"]] = self.ops.get(ev["op"], 0) + 1
        if len(self.samples) < 3 and ev["op"] != "reset" and self.events % 7 == 3:
            self.samples.append(ev)

    def close(self, **extra):
        if self.f:
            self.f.close()
        p = os.path.join(self.outdir, "summary.json")
        old = {}
        if os.path.exists(p):
            old = json.load(open(p))
        s = dict(events=old.get("events", 0) + self.events, traces=old.get("traces", 0) + self.traces,
                 ops={**old.get("ops", {}), **self.ops}, samples=(old.get("samples", []) + self.samples)[:4], **extra)
        json.dump(s, open(p, "w"))


def args():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("--out", required=True)
    p.add_argument("--tier", default="quick")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--scripts", default=None, help="ndjson of TLC-generated behaviours")
    p.add_argument("--part", type=int, default=0)
    p.add_argument("--parts", type=int, default=1)
    a = p.parse_args()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))     # a runaway allocation is an exception, not a dead machine
    random.seed(a.seed)
    import numpy as np
    np.random.seed(a.seed)
    return a


# ---------------------------------------------------------------------------------------------
# Exact rotations: the 24 rotations of the cube, as integer matrices, with a quaternion for each.
def qmat(q):
    """Rotation matrix of a quaternion [w,x,y,z] computed independently of the code under test."""
    w, x, y, z = [float(a) for a in q]
    return [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
            [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
            [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]


def qmul(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3],
            a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1],
            a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]


def cube_rotations():
    h = math.sqrt(0.5)
    gens = [[h, h, 0, 0], [h, 0, h, 0]]
    out = {}
    todo = [[1.0, 0.0, 0.0, 0.0]]
    while todo:
        q = todo.pop()
        key = tuple(int(round(v)) for r in qmat(q) for v in r)
        if key in out:
            continue
        out[key] = q
        for g in gens:
            todo.append(qmul(g, q))
    return [(list(k), out[k]) for k in sorted(out)]


def fxmat(q, tol=1e-6):
    """Integer matrix (row major, 9 ints) of a quaternion that is a cube rotation; OFF entries otherwise.
    The norm is part of the projection: a non-unit quaternion is off the lattice."""
    try:
        import numpy as np
        q = [float(a) for a in np.asarray(q, dtype=float).ravel()]
        if len(q) != 4 or abs(math.sqrt(sum(a*a for a in q)) - 1.0) > tol:
            return [OFF]*9
    except Exception:
        return [OFF]*9
    return [fx(v, 1, tol) for r in qmat(q) for v in r]
