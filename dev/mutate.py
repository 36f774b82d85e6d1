#!/usr/bin/env python3
"""Development aid: run a check against one-line mutants of a scratch copy of /repo.
usage: mutate.py MUTANTS.json [--tests] ; entries {"p": property, "f": file, "o": old, "n": new, "k": occurrence}"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
AL = {"RB": "rainbow/simulators/prox_rigid_bodies/", "SB": "rainbow/simulators/prox_soft_bodies/", "PC": "rainbow/simulators/proximal_contact/",
      "G": "rainbow/geometry/", "IK": "rainbow/simulators/inverse_kinematics/", "M": "rainbow/math/", "U": "rainbow/util/"}


def load(path):
    """JSON, or lines  PROP[,PROP] @ ALIAS/file @ old @ new [@ k]   (\\n for newlines)"""
    if path.endswith(".json"):
        return json.load(open(path))
    out = []
    for line in open(path):
        if line.strip() and not line.startswith("#"):
            f = [x.strip() for x in line.rstrip("\n").split("@")]
            a, _, b = f[1].partition("/")
            for p in f[0].split(","):
                out.append(dict(p=p, f=AL[a] + b, o=f[2].replace("\\n", "\n"), n=f[3].replace("\\n", "\n"), k=int(f[4]) if len(f) > 4 else 0))
    return out


ms = load(sys.argv[1])
tests = "--tests" in sys.argv
only = [a for a in sys.argv[2:] if not a.startswith("-")]
if only:
    ms = [m for m in ms if m["p"] in only]
def one(i_m):
    i, m = i_m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "data/*.zip", os.environ.get("VERIF_BASE", "/repo") + "/", d + "/"], check=True) if shutil.which("rsync") else \
            subprocess.run(f"cd {os.environ.get('VERIF_BASE', '/repo')} && tar cf - --exclude=.git . | tar xf - -C {d}", shell=True, check=True)
        p = os.path.join(d, m["f"]); s = open(p).read()
        if m["o"] not in s: return i, m, "NOT-APPLICABLE", ""
        k = m.get("k", 0); pos = -1
        for _ in range(k + 1): pos = s.find(m["o"], pos + 1)
        s = s[:pos] + m["n"] + s[pos + len(m["o"]):]
        open(p, "w").write(s)
        e = dict(os.environ, VERIF_REPO=d, VERIF_NO_MODELS="1")
        r = subprocess.run([sys.executable, "/verif/bin/check.py", m["p"]], env=e, capture_output=True, text=True)
        t = ""
        if tests:
            e2 = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CACHE_DIR=d + "/nb")
            q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "unit_tests"], cwd=d, env=e2, capture_output=True, text=True)
            t = q.stdout.strip().splitlines()[-1] if q.stdout.strip() else "?"
        return i, m, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, str(r.returncode)), (r.stdout.splitlines() or [""])[0][:160] + "  " + t
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("J", "2"))) as ex:
    for i, m, v, w in ex.map(one, enumerate(ms)):
        print(f"{i:3} {v:8} {m['p']} {m['f'].split('/')[-1]}: {m['o'][:50]!r} -> {m['n'][:50]!r} | {w}", flush=True)
