"""Numbers, lists, rotations and ranges written as text."""
import itertools
import random
from vlib import *
a_ = args()
import numpy as np
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3
import rainbow.util.parse_string as PS

rec = Recorder(a_.out, chunk=60)
rng = random.Random(a_.seed * 1000003 + a_.part)
quick = a_.tier == "quick"
FN = dict(turn=PS.parse_string_to_rotation_check, list=PS.parse_string_to_array_check, ru=PS.parse_string_to_ru_check, range=PS.parse_string_to_random_range_check)


def check(kind, texts):
    rec.begin()
    for k in range(0, len(texts), 100):
        part = texts[k:k + 100]
        rec.emit(dict(op="check", kind=kind, texts=[list(t) for t in part], yes=[call(FN[kind], t) == ("ok", True) for t in part]))


# every text over small alphabets
L = 4 if quick else 5
jobs = []
for n in range(0, L + 1):
    words = ["".join(w) for w in itertools.product("01-.e+", repeat=n)]
    jobs += [("turn", "rx:" + w) for w in words]
    if n <= 3:
        jobs += [("list", "[" + w + "]") for w in words] + [("range", "rand:" + w + ":1") for w in words] + [("range", "rand:0:" + w) for w in words] + \
                [("ru", "ru:" + w + ":[1,0,0]") for w in words] + [("ru", "ru:1:[0," + w + ",0]") for w in words]
for n in range(0, L + 1):
    words = ["".join(w) for w in itertools.product("1,[]- ", repeat=n)]
    jobs += [("list", "[" + w) for w in words if "- " not in w]
for n in range(0, 5):
    jobs += [("turn", "".join(w)) for w in itertools.product("rxw:1", repeat=n)]
for n in range(0, 4):
    jobs += [("ru", "ru" + "".join(w) + "]") for w in itertools.product("u:1[,", repeat=n)]
    jobs += [("range", "ran" + "".join(w)) for w in itertools.product("d:1a", repeat=n)]
for n in range(0, 4):
    for w in itertools.product("1], :", repeat=n):
        w = "".join(w)
        jobs += [("ru", "ru:1:[1,0,0]" + w), ("ru", "ru:1" + w + ":[0]"), ("range", "rand:0:1" + w), ("turn", "rx:1" + w), ("list", "[1,0]" + w)] if " 1" not in w else []
jobs = jobs[a_.part::a_.parts]
for kind in FN:
    check(kind, [t for k, t in jobs if k == kind])


def number(v):
    """A text of the value v thousandths."""
    s = "-" if v < 0 else ""
    v = abs(v)
    w = rng.random()
    if w < 0.4:
        i, f = divmod(v, 1000)
        fs = ("%03d" % f).rstrip("0")
        return s + str(i) + ("." + fs if fs else rng.choice(["", ".0", ".00"]))
    k = rng.randint(0, 3)
    if w < 0.7:                     # m e-
        e = 3 + k
        m = str(v * 10 ** k)
        return s + m + "e-" + rng.choice(["", "0"]) + str(e)
    d = rng.randint(1, 3)           # i.f e+
    i, f = divmod(v, 10 ** (3 + d))
    return s + str(i) + "." + ("%0*d" % (3 + d, f)) + "e+" + str(d)


def case(t):
    return "".join(rng.choice([c, c.upper()]) for c in t)


def emit(fn, text, **ev):
    out, v = call(fn, text)
    ok = out == "ok"
    sc = ev.pop("scale")
    r = frv if ev.get("rnd") else fxv
    ev.pop("rnd", 0)
    rec.emit(dict(op="read", out=out, text=text, v=(r(v, sc) if ok else []), **ev))


sp = lambda: rng.choice(["", "", " "])
N = 60 if quick else 1500
for it in range(N):
    rec.begin()
    deg = 90000 * rng.randint(-8, 8)
    t = number(deg)
    k = rng.randint(0, 2)
    emit(Q.from_string, case("r" + "xyz"[k] + ":") + sp() + case(t) + sp(), kind="turn", good=True, num=list(t), axis=[int(i == k) for i in range(3)], scale=1024, rnd=1)
    ax = [rng.randint(-3, 3) for _ in range(3)]
    if not any(ax):
        ax[0] = 1
    t = number(deg)
    emit(Q.from_string, case("ru:") + sp() + case(t) + ":" + sp() + "[" + ",".join(sp() + number(1000 * a) for a in ax) + "]", kind="ru", good=True, num=list(t), axis=ax, scale=1024, rnd=1)
    ln = rng.randint(1, 6)
    nums = [number(rng.randint(-30000, 30000)) for _ in range(ln)]
    for fn, want in ((V3.from_string, 3), (Q.from_string, 4)):
        text = sp() + "[" + ",".join(sp() + case(x) for x in nums) + "]" + sp()
        emit(fn, text, kind="list", good=ln >= want, nums=[list(x) for x in nums[:want]], want=want, scale=1000)
    lo = rng.randint(-20000, 20000)
    up = lo + rng.choice([0, 1, rng.randint(0, 9000)])
    a, b = number(lo), number(up)
    emit(V3.from_string, case("rand:") + sp() + case(a) + ":" + sp() + case(b), kind="range", good=True, nums=[list(a), list(b)], scale=1000, rnd=1)
    fn, w, e = rng.choice([(V3.from_string, "ones", [1000] * 3), (V3.from_string, "zero", [0] * 3), (V3.from_string, "i", [1000, 0, 0]), (V3.from_string, "j", [0, 1000, 0]),
                           (V3.from_string, "k", [0, 0, 1000]), (Q.from_string, "identity", [1000, 0, 0, 0])])
    emit(fn, case(w), kind="word", good=True, expect=e, scale=1000)
    bad = rng.choice(["rx:", "rx", "rw:1", "rx:1,2", "rx:[1,2,3]", "ru:90", "ru:90:1,0,0", "ru:90:[1,0,0", "[1,2,3", "1,2,3,4", "[]", "[1,,2,3]", "[1 2 3 4]", "rand:1", "rand:1:2:3", "rand:a:b",
                      "identity2", "one", "", "rx:1e5", "rx:01", "rx:1.", "rx:.5", "rx:+1", "rx:--1", "[1,2,x,4]", "[1,2,3,4]]", "[[1,2,3,4]]", "l", "ij", "rx:90 1", "[1,2,3,4] 5", "rx:1e+", "nan", "[nan,1,2,3]", "[inf,1,2,3]"])
    emit(rng.choice([V3.from_string, Q.from_string]), bad, kind="bad", good=False, scale=1000)
rec.close()
