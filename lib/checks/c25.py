"""C25: equal configurations give identical dumps in every process."""
import json
import os
import subprocess
import sys

from base import G, REPO, VERIF, Violation, short
import dumpjob
import gen
from util import cfg_shape

ID = "C25"
CASE_S = 200.0  # starts processes
SITE = [p for p in sys.path if p.endswith("site-packages")]


def process(kind, hashseed, infile, outfile, variant):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.pathsep.join([REPO] + SITE), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    exe = sys.executable if kind == "pypy" else "/usr/bin/python3"
    if kind == "pypy":
        env["PYTHONPATH"] = REPO
    try:
        p = subprocess.run([exe, "-B", "-X", "utf8", os.path.join(VERIF, "lib", "dumpjob.py"), infile, outfile, str(variant)], env=env, cwd=os.environ["VERIF_SCRATCH"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if p.returncode:
        return None, p.stdout.decode("utf-8", "replace")
    with open(outfile, encoding="utf-8") as f:
        return json.load(f), None


_cpython = []


def has_cpython():
    """Whether another interpreter, with really unordered sets, can import the code under test."""
    if not _cpython:
        try:
            p = subprocess.run(["/usr/bin/python3", "-c", "import graphtransliterator.core"], cwd=os.environ["VERIF_SCRATCH"],
                               env={"PYTHONPATH": os.pathsep.join([REPO] + SITE), "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin"},
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            _cpython.append(p.returncode == 0)
        except OSError:
            _cpython.append(False)
    return _cpython[0]


def differ(jobs, a, b, how):
    for j, x, y in zip(jobs, a, b):
        for k in x:
            if x[k] != y[k]:
                n = next((i for i, (p, q) in enumerate(zip(x[k], y[k])) if p != q), min(len(x[k]), len(y[k])))
                raise Violation("equal configurations were dumped differently", how=how, dump=k, cfg=short(j["cfg"], 3000),
                                one=x[k][max(0, n - 80):n + 80], other=y[k][max(0, n - 80):n + 80])


def case(rng, mon):
    jobs = []
    for _ in range(12):
        cfg = gen.config(rng, gen.Opts(big=0.03, maxrules=12, onmatch=0.6, metadata=0.6))
        mem = gen.members(cfg)
        jobs.append({"cfg": cfg, "texts": [gen.text(rng, cfg, n=5, mem=mem, errors=0.2) for _ in range(2)], "ignore_errors": rng.random() < 0.4})
        mon.feature(cfg_shape(cfg))
    jobs = json.loads(json.dumps(jobs))
    mon.current = {"jobs": short(jobs, 3000)}
    base = [dumpjob.dumps(G, j["cfg"], j["texts"], j["ignore_errors"], 0) for j in jobs]
    mon.count("configs", len(jobs))
    # in this process
    for _ in range(2):
        v = rng.randrange(1, 10 ** 6)
        got = [dumpjob.dumps(G, j["cfg"], j["texts"], j["ignore_errors"], v) for j in jobs]
        mon.count("same_process", len(jobs))
        differ(jobs, base, got, "same process, variant %d" % v)
    # the same transliterator twice
    for j in jobs[:4]:
        gt = G.from_dict(json.loads(json.dumps(j["cfg"])), check_ambiguity=False, ignore_errors=j["ignore_errors"])
        for lvl in (2, 0, 1, 0, 2):
            if gt.dumps(lvl) != gt.dumps(lvl) or json.dumps(gt.dump(lvl)) != json.dumps(gt.dump(lvl)):
                raise Violation("dumping twice gives different texts", level=lvl, cfg=short(j["cfg"], 3000))
        mon.count("twice")
    # other processes
    s = os.environ["VERIF_SCRATCH"]
    inf = os.path.join(s, "c25-in-%d.json" % mon.wid)
    with open(inf, "w", encoding="utf-8") as f:
        json.dump(jobs, f)
    runs = [("pypy", rng.randrange(1, 10 ** 6))] if rng.random() < 0.15 else []
    first = {"pypy": base}
    if has_cpython():
        runs += [("cpython", rng.randrange(1, 4 * 10 ** 9)) for _ in range(2)]
    elif not runs:
        runs = [("pypy", 7)]
    for n, (kind, hs) in enumerate(runs):
        v = 0 if kind not in first and n == 0 else rng.randrange(0, 10 ** 6)
        out, err = process(kind, hs, inf, os.path.join(s, "c25-out-%d.json" % mon.wid), v)
        if out is None:
            mon.count("processes_failed")  # nothing observed of it
            mon.sample({"failed": err[-500:]})
            continue
        mon.count("processes")
        mon.count("process_" + kind)
        if kind in first:
            differ(jobs, first[kind], out, "%s process, hash seed %s, variant %s" % (kind, hs, v))
            mon.count("other_process", len(jobs))
        else:
            first[kind] = out
    mon.sample({"processes": runs, "configs": len(jobs)})
