"""Histories of the real priority queue and of the real stopwatch."""
import random
import time
from vlib import *
a_ = args()
from rainbow.util.heap import Heap
from rainbow.util.timer import Timer

rec = Recorder(a_.out, chunk=200)
rng = random.Random(a_.seed * 1000003 + a_.part)
c = rng.choice
N = 150 if a_.tier == "quick" else 3000
for it in range(N):
    rec.begin()
    H = Heap()
    span = c([1, 3, 10, 300])
    items = rng.randint(1, 8)
    shared = [float(v) for v in range(-span, span + 1)]       # the same object for the same value
    waiting = set()

    def value():
        v = rng.randint(-span, span)
        return v, c([lambda: v, lambda: shared[v + span], lambda: v + 0.0, lambda: float(str(v))])()

    for _ in range(rng.randint(5, 60)):
        k = rng.randrange(10)
        if k < 5:
            i = rng.randrange(items)
            v, x = value()
            name = "update" if i in waiting and rng.random() < .7 else "push"
            out, _ = call(getattr(H, name), i, x)
            waiting.add(i)
            rec.emit(dict(op=name, i=i, v=v, out=out))
        elif k < 9:
            out, i = call(H.pop)
            i = int(i) if i is not None else -1
            waiting.discard(i)
            rec.emit(dict(op="pop", i=i, out=out))
        else:
            out, b = call(bool, H)
            rec.emit(dict(op="some", b=bool(b), out=out))
    while rng.random() < .9:
        out, i = call(H.pop)
        rec.emit(dict(op="pop", i=int(i) if i is not None else -1, out=out))
    if it % 3 == 0:
        rec.begin()
        T = Timer(c([None, "x"]), c([1, 8]))
        s0 = s1 = 0
        for _ in range(rng.randint(2, 16)):
            K = 1 << 20
            if rng.random() < .55:
                s0 = time.perf_counter()
                out, _ = call(T.start)
                s1 = time.perf_counter()
                rec.emit(dict(op="start", out=out, last=fr(T.elapsed, K), total=fr(T.total, K)))
                if rng.random() < .4:
                    time.sleep(c([.001, .004]))
            else:
                e0 = time.perf_counter()
                out, _ = call(T.end)
                e1 = time.perf_counter()
                rec.emit(dict(op="end", out=out, lo=fr(e0 - s1, K), hi=fr(e1 - s0, K), last=fr(T.elapsed, K), total=fr(T.total, K)))
            str(T)
rec.close()
