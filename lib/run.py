# -*- coding: utf-8 -*-
"""
check entry point.

  run.py PROPERTY [--tier quick|thorough]     run a check (parent of the workers)
  run.py PROPERTY --worker ...                one worker (internal)
  run.py PROPERTY --replay FILE               re-run one recorded case
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--min-cases", type=int)
    ap.add_argument("--max-cases", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.worker is not None:
        import base

        check = importlib.import_module("checks." + a.prop.lower())
        base.worker(check, a.seed, a.worker, tier, a.budget, a.cap, a.min_cases, a.out, a.max_cases)
        return 0
    if a.replay:
        return replay(a.prop, a.replay, tier)
    return parent(a.prop, tier, a)


def replay(prop, path, tier):
    import base

    check = importlib.import_module("checks." + prop.lower())
    with open(path) as f:
        rec = json.load(f)
    mon = base.Monitor()
    mon.tier = tier
    mon.wid = 0
    key = rec["key"]
    import signal

    signal.signal(signal.SIGALRM, base._alarm)
    if key.startswith("probe:"):
        fn = [p for p in check.PROBES if p.__name__ == key[6:]][0]

        class P:
            ID = check.ID
            case = staticmethod(fn)

        v = base.run_case(P, key, mon)
    else:
        v = base.run_case(check, key, mon)
    if v is None:
        print("not reproduced")
        return 0
    print(v["message"])
    print(json.dumps(v["details"], indent=1, default=repr, ensure_ascii=True))
    print("case:", base.short(mon.current, 6000))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def parent(prop, tier, a):
    t0 = time.time()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    meta = importlib.import_module("meta").META[prop]
    nw = int(os.environ.get("VERIF_WORKERS", "0")) or meta.get("workers", 8)
    budget = meta["quick_s"] if tier == "quick" else meta["thorough_s"]
    if a.budget:
        budget = a.budget
    min_cases = meta.get("min_cases", 3)
    cap = max(budget, 120 if tier == "quick" else 700)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", VERIF_WORKERS=str(nw), PYTHONHASHSEED="0",
               VERIF_SCRATCH=scratch, LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONUTF8="1", PYTHONIOENCODING="utf-8")
    env.pop("PYTHONPATH", None)
    procs = []
    try:
        for w in range(nw):
            out = os.path.join(scratch, "out%d.json" % w)
            cmd = [sys.executable, "-B", os.path.join(HERE, "run.py"), prop, "--tier", tier, "--worker", str(w),
                   "--seed", str(seed), "--budget", str(budget), "--cap", str(cap), "--min-cases", str(min_cases), "--out", out]
            if a.max_cases:
                cmd += ["--max-cases", str(a.max_cases)]
            err = open(os.path.join(scratch, "err%d" % w), "wb")
            procs.append((subprocess.Popen(cmd, env=env, cwd=scratch, stdout=err, stderr=err, start_new_session=True), out, w))
            err.close()
        deadline = t0 + cap + (450 if tier == "quick" else 170)
        results = {}
        problems = []
        while len(results) + len(problems) < nw:
            alive = False
            for p, out, w in procs:
                if w in results or any(x[0] == w for x in problems):
                    continue
                if p.poll() is None:
                    alive = True
                    if time.time() > deadline:
                        problems.append((w, "watchdog: worker did not finish"))
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[w] = json.load(f)
                else:
                    with open(os.path.join(scratch, "err%d" % w), errors="replace") as f:
                        problems.append((w, "worker exited %s: %s" % (p.returncode, f.read()[-2000:])))
            if any(r["violation"] for r in results.values()):
                break
            if alive:
                time.sleep(0.03)
        for p, out, w in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, meta, results, problems, t0, nw)


def report(prop, tier, seed, meta, results, problems, t0, nw):
    counters = {}
    feats = set()
    samples = []
    suppressed = {}
    cases = 0
    viol = None
    for w in sorted(results):
        r = results[w]
        cases += r["cases"]
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        feats.update(r["features"])
        samples += r["samples"][:2]
        for k, v in r["suppressed"].items():
            suppressed[k] = suppressed.get(k, 0) + v
        if r["violation"] and viol is None:
            viol = r["violation"]
        if r["inconclusive"]:
            problems.append((w, r["inconclusive"]))
    missing = [k for k in meta.get("require", []) if not counters.get(k)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": cases + counters.get("probes", 0),
            "distinct_nontrivial": len(feats),
            "rule": meta["rule"],
            "samples": samples[:6] or ["(none)"],
            "observed": counters,
            "workers": nw,
            "known_findings_suppressed": suppressed,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    if problems:
        ev["coverage"]["problems"] = [list(p) for p in problems]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    os.rename(path + ".tmp", path)
    if viol:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1((viol["key"] + viol["message"]).encode("utf-8", "replace")).hexdigest()[:10]
        rpath = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(rpath, "w") as f:
            json.dump(dict(viol, property=prop, tier=tier, seed=seed), f, indent=1, default=repr)
        print(viol["message"])
        print(json.dumps(viol["details"], default=repr)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if problems:
        for w, p in problems:
            print("INCONCLUSIVE worker %s: %s" % (w, p))
        return 2
    if missing or not cases:
        print("INCONCLUSIVE: the monitors never observed: %s" % ", ".join(missing or ["any case"]))
        return 2
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.json")) as f:
        for d in json.load(f)["findings"]:
            if d["property"] == prop:
                # printed only while the finding is still observed on this tree
                if suppressed.get(d["key"]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    print("held property=%s cases=%d distinct=%d wall=%.1fs" % (prop, cases, len(feats), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
