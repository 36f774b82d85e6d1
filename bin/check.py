#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough] [--seed N]

1. TLC checks the property's specification(s) exhaustively within the constants of the .cfg.
2. The drivers run the code of /repo (as it is now): they replay behaviours generated by TLC from the
   specification and their own (seeded) workloads, and record every call with its outcome and state.
3. TLC validates every recorded event against the trace specification.
Exit: 0 held, 1 VIOLATION, 2 machinery error.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, DRV = os.path.join(HERE, "spec"), os.path.join(HERE, "drivers")
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS          # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
ERR = []


def tlc(module, cfg, scratch, tag, extra=(), env=None, workers=1, timeout=800, mem="3g"):
    meta = os.path.join(scratch, "meta_" + tag)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + mem,
           "-Dtlc2.TLC.ide=verif",
           "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -9
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def printed(out, tag):
    """Lines printed by PrintT("TAG " \\o ToJson(..)): a TLA+ string literal, quotes escaped."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            s = line.strip()[1:-1][len(tag) + 1:]
            try:
                res.append(json.loads(json.loads('"' + s + '"')))
            except Exception:
                try:
                    res.append(json.loads(s))
                except Exception:
                    ERR.append("unparsable TLC output: " + line[:200])
    return res


def run_model(m, scratch, tier, seed):
    """Exhaustive (or simulation) check of a design specification."""
    cfg = m.get("cfg_thorough", m["cfg"]) if tier == "thorough" else m["cfg"]
    rc, out, w = tlc(m["module"], cfg, scratch, os.path.basename(cfg).replace(".", "_"), workers=m.get("workers", 2),
                     extra=m.get("extra", []), timeout=m.get("timeout", 700 if tier == "quick" else 3000))
    d, g = stats(out)
    if rc != 0:
        ERR.append(f"specification {m['module']} with {cfg}: TLC exit {rc}\n" + "\n".join(out.splitlines()[-40:]))
    return dict(module=m["module"], cfg=cfg, distinct=d, generated=g, wall=round(w, 1))


def run_gen(g, scratch, tier, seed):
    """Behaviours of the specification, generated by TLC in simulation mode, as scripts for the driver."""
    num, depth = g.get(tier, g["quick"])
    rc, out, w = tlc(g["module"], g["cfg"], scratch, "gen_" + g["module"], workers=1,
                     extra=["-simulate", f"num={num}", "-depth", str(depth + 2), "-seed", str(seed * 7919 + 17)],
                     timeout=600)
    scripts = printed(out, "SCRIPT")
    # every behaviour is printed by the state in which it is complete
    if not scripts:
        ERR.append(f"no behaviours generated from {g['module']}: TLC exit {rc}\n" + "\n".join(out.splitlines()[-30:]))
    path = os.path.join(scratch, g["module"] + ".scripts.ndjson")
    seen = set()
    with open(path, "w") as f:
        for s in scripts:
            k = json.dumps(s)
            if k not in seen:
                seen.add(k)
                f.write(k + "\n")
    return path, len(seen)


def driver_env(scratch):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTEST_ADDOPTS")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), PYTHONPATH=os.path.join(HERE, "lib"),
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=scratch, TMPDIR=scratch)
    return e


def run_driver(d, scratch, tier, seed, scripts, idx, part, parts):
    out = os.path.join(scratch, f"drv{idx}_{part}")
    os.makedirs(out)
    cmd = [PY, "-W", "ignore", os.path.join(DRV, d["script"]), *d.get("args", []), "--out", out, "--tier", tier,
           "--seed", str(seed), "--part", str(part), "--parts", str(parts)]
    if scripts:
        cmd += ["--scripts", scripts]
    try:
        p = subprocess.run(cmd, cwd=scratch, env={**driver_env(scratch), **d.get("env", {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=d.get("timeout", 700 if tier == "quick" else 3300), errors="replace")
        if p.returncode != 0:
            ERR.append(f"driver {d['script']} part {part}: exit {p.returncode}\n" + p.stdout[-3000:])
    except subprocess.TimeoutExpired:
        ERR.append(f"driver {d['script']} part {part}: timed out")
    sm = os.path.join(out, "summary.json")
    summary = json.load(open(sm)) if os.path.exists(sm) else {}
    files = sorted(f for f in glob.glob(os.path.join(out, "*.ndjson")) if os.path.getsize(f))
    return [(d, f) for f in files], summary


def validate(d, f, scratch, tier):
    tag = os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f).replace(".", "_")
    rc, out, w = tlc(d["trace"], d.get("trace_cfg", d["trace"] + ".cfg"), scratch, tag, env={"TRACE_FILE": f},
                     timeout=700 if tier == "quick" else 3000)
    bad = printed(out, "VBAD")
    done = printed(out, "VDONE")
    ds, gs = stats(out)
    n = sum(1 for _ in open(f))
    res = []
    for b in bad:
        res.append(dict(file=f, line=b["line"], clauses=sorted(b["clauses"])))
    if not done or done[-1]["n"] != n:
        if rc not in (0, -9, 143, 137) and ("Attempted to" in out or "attempted to" in out or "evaluating" in out.lower()) \
                and "OutOfMemory" not in out and "Parsing or semantic" not in out:
            msg = [x for x in out.splitlines() if "ttempted to" in x or "rror" in x][:6]
            # the last event reached is not one the specification can even interpret
            m = re.findall(r"/\\ tl = (\d+)", out)
            res.append(dict(file=f, line=int(m[-1]) if m else 1, clauses=["event_not_interpretable"], detail=msg))
        else:
            ERR.append(f"trace validation of {f} did not finish: TLC exit {rc}\n" + "\n".join(out.splitlines()[-30:]))
    elif rc != 0:
        ERR.append(f"trace validation of {f}: TLC exit {rc}\n" + "\n".join(out.splitlines()[-30:]))
    return res, ds, gs, n


def history(f, line):
    """The events of the history that ends at the given line of the file."""
    evs = [json.loads(x) for x in open(f)][:line]
    k = max((i for i, e in enumerate(evs) if e["op"] == "reset"), default=0)
    return evs[k:]


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def subset(pattern, ev):
    """A finding identifies the failing event by a set of field values."""
    return all(k in ev and ev[k] == v for k, v in pattern.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed
    P = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        models, gens, viol, evs, dists, gen_states = [], {}, [], 0, 0, 0
        summaries = []
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fm = [ex.submit(run_model, m, scratch, tier, seed) for m in (P.get("models", []) if not os.environ.get("VERIF_NO_MODELS") else [])]  # dev aid: mutants do not change the models
            fg = {g["module"]: ex.submit(run_gen, g, scratch, tier, seed) for g in P.get("gen", [])}
            gens = {k: f.result() for k, f in fg.items()}
            fd = []
            for i, d in enumerate(P["drivers"]):
                sc = gens[d["scripts"]][0] if d.get("scripts") else None
                parts = d.get("parts", 1)
                for k in range(parts):
                    fd.append(ex.submit(run_driver, d, scratch, tier, seed, sc, i, k, parts))
            fv, nfiles = [], 0
            for f in cf.as_completed(fd):
                files, s = f.result()
                summaries.append(s)
                for d, path in files:
                    nfiles += 1
                    fv.append(ex.submit(validate, d, path, scratch, tier))
            if not nfiles and not ERR:
                ERR.append("no events were recorded")
            for f in fv:
                r, ds, gs, n = f.result()
                viol += r
                evs += n
                dists += ds
                gen_states += gs
            models = [f.result() for f in fm]
        # ---- known findings -------------------------------------------------------------------
        kf = known_findings(pid)
        hit, new = set(), []
        for v in viol:
            h = history(v["file"], v["line"])
            v["history"] = h
            last = h[-1] if h else {}
            m = [i for i, k in enumerate(kf) if set(v["clauses"]) <= set(k["clauses"]) and subset(k["event"], last)
                 and subset(k.get("reset", {}), h[0] if h else {})]
            if m:
                hit.add(m[0])
            else:
                new.append(v)
        for i in sorted(hit):
            print(f"KNOWN-FINDING: property={pid} {kf[i]['what']}")
        # ---- evidence ----------------------------------------------------------------------------
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ops = {}
        for s in summaries:
            for k, v in s.get("ops", {}).items():
                ops[k] = ops.get(k, 0) + v
        samples = [x for s in summaries for x in s.get("samples", [])][:5]
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=sum(m["distinct"] for m in models) + dists,
                                transitions=sum(m["generated"] for m in models) + gen_states,
                                traces_validated_against_impl=sum(s.get("traces", 0) for s in summaries),
                                events_validated=evs, events_by_kind=ops,
                                behaviours_generated_by_tlc=sum(n for _, n in gens.values()),
                                model_runs=models,
                                trace_states=dists,
                                notes={k: v for s in summaries for k, v in s.items()
                                       if k not in ("events", "traces", "ops", "samples")},
                                samples=samples or ["none"]),
                  assumptions=P.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=len(new))
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        if new:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{pid}.json")
            json.dump([dict(clauses=v["clauses"], detail=v.get("detail"), history=v["history"]) for v in new[:20]],
                      open(path, "w"), indent=1)
            cl = sorted({c for v in new for c in v["clauses"]})
            print(f"{pid}: {len(new)} recorded events are not behaviours of the specification; clauses: {', '.join(cl)}")
            print(f"first: {json.dumps(new[0]['history'][-1])[:800]}")
            print(f"VIOLATION property={pid} replay={path}")
            for e in ERR:
                print("note:", e[:600])
            return 1
        if ERR:
            for e in ERR[:3]:
                print("ERROR:", e[:3000])
            return 2
        print(f"{pid}: held. model states {sum(m['distinct'] for m in models)}, events validated {evs}, "
              f"traces {ev['coverage']['traces_validated_against_impl']}, {ev['wall_s']} s")
        return 0
    finally:
        if a.keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
