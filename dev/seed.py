#!/usr/bin/env python3
"""Development aid: make (and confirm) planted bugs under /verif/seeded.
usage: seed.py SEEDS.py [id ...] [--nocheck]
SEEDS.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)]
Each is applied to a scratch clone of /repo; the tests must pass with it, the demonstration must fail with it and pass without."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE.get("stable") or BASE.get("tests") or BASE.get("pass") or [])
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if not a.startswith("--")]


def env(d):
    return dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", NUMBA_CACHE_DIR=d + "/.nb", OMP_NUM_THREADS="1")


def one(s):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = d + "/r"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        for f, o, n in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(o) != 1:
                return s["id"], f"edit does not apply once ({t.count(o)}): {o[:60]!r}"
            open(p, "w").write(t.replace(o, n))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        dst = "/verif/seeded/" + s["id"]
        tmp = d + "/seed"; os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        bad = subprocess.run(["bash", tmp + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300, env=env(d))
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        good = subprocess.run(["bash", tmp + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300, env=env(d))
        if good.returncode != 0 or bad.returncode == 0:
            return s["id"], f"demo: clean rc {good.returncode}, patched rc {bad.returncode}\n{good.stdout[-800:]}{good.stderr[-1500:]}\n--\n{bad.stdout[-500:]}{bad.stderr[-500:]}"
        open(tmp + "/patch.diff", "w").write(diff)
        subprocess.run(["git", "apply", tmp + "/patch.diff"], cwd=r, check=True)
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + d + "/j.xml", "unit_tests"], cwd=r,
                       env=dict(env(d), PYTHONPATH="/opt/vp/pyplugin"), capture_output=True)
        failed = [f'{c.get("classname")}::{c.get("name")}' for c in ET.parse(d + "/j.xml").iter("testcase") if c.find("failure") is not None or c.find("error") is not None]
        n = sum(1 for _ in ET.parse(d + "/j.xml").iter("testcase"))
        sf = [f for f in failed if any(f.split("::")[-1] in x for x in STABLE)] if STABLE else failed
        if sf or n < 290:
            return s["id"], f"tests fail ({n} ran): {sf[:5]}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for f in ("patch.diff", "demo.py", "demo.sh"):
            shutil.copy(tmp + "/" + f, dst + "/" + f)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(dst + "/meta.json", "w"), indent=1)
        msg = "kept; demo with patch: " + (bad.stdout.strip().splitlines() or bad.stderr.strip().splitlines() or ["?"])[-1][:150]
        if "--nocheck" not in sys.argv:
            c = subprocess.run([sys.executable, "/verif/bin/check.py", s["property"]], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            msg += f"\n     check: {({0: 'MISSED', 1: 'caught', 2: 'ERROR'}).get(c.returncode)} {(c.stdout.splitlines() or [''])[0][:200]}"
        return s["id"], msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("J", "2"))) as ex:
    for i, m in ex.map(one, [s for s in ns["SEEDS"] if not only or s["id"] in only]):
        print(i, ":", m, flush=True)
