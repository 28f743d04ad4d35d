"""C40: make-json makes the JSON of the transliterators named, as their YAML demands, and nothing else.

Bundled transliterators of generated settings are put into a copy of the package; the command is run
there by a process of its own, which tells after each run which files hold something else."""
import json
import os
import re
import shutil
import subprocess
import sys

import yaml

from base import G, PKG, VERIF, Violation, short
import easyparse
import gen
import ref
from util import behaviour, build, cfg_shape, same, same_behaviour, settings_of

ID = "C40"
CASE_S = 90.0
TD = os.path.join("graphtransliterator", "transliterators")
NAMES = [["AToB", "AToBC", "AToB2", "BAToB", "atob"], ["Ex", "Exa", "ExampleB", "MyExample", "EXAMPLE"], ["X1", "X11", "X_1", "Y_X1", "X"],
         ["Zwei", "Ein", "Drei", "Ein_Zwei", "EinZwei"], ["\u00c4rger", "Arger", "\u0915\u0916", "A", "B"]]
INIT = """from graphtransliterator.transliterators import Bundled


class %s(Bundled):
    def __init__(self, **kwargs):
        self.from_%s(**kwargs)
"""


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))


def settings(rng):
    """(easy-reading settings as YAML, configuration)"""
    for _ in range(30):
        cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, maxrules=8, big=0.01, onmatch=0.5, metadata=0.7))
        cfg["rules"] = gen.easy_filter(cfg["rules"])
        if not cfg["rules"] or ref.ambiguous_pairs([ref.rule(r) for r in cfg["rules"]], {k: frozenset(v) for k, v in cfg["tokens"].items()}):
            continue
        y = yaml.safe_dump(gen.easy_settings(cfg), allow_unicode=True, sort_keys=False)
        if "\\N{" not in y and yaml.safe_load(y) == gen.easy_settings(cfg):
            return y, cfg
    return None


def pattern(rng, names):
    n = gen.pick(rng, names)
    return rng.choice([n, n[:rng.randrange(1, len(n) + 1)], "^%s$" % n, ".*", "[A-Z]+", n + "|" + gen.pick(rng, names), ".*%s" % n[-1], "(?i)" + n.lower(), n + ".", n[1:] or n, "!", "%s.?$" % n,
                       ".*[0-9]", n + "$", "\\w{1,4}$"])


def literal(rng, names):
    n = gen.pick(rng, names)
    return rng.choice([n, n, n, n[:-1] or "q", n + "x", n[0] + ".*", "." * len(n), n + "|" + gen.pick(rng, names), n.swapcase(), "^" + n, n + "$", ".*", n + "?", "(%s)" % n, " " + n, "[%s]" % n, "(", n + " "])


def case(rng, mon):
    top = os.path.join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "c40-%d" % mon.wid)
    try:
        run(rng, mon, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(rng, mon, top):
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(PKG, os.path.join(top, "graphtransliterator"), ignore=shutil.ignore_patterns("__pycache__"))
    of = {}  # name: (directory within top, module name, yaml, configuration or None if it cannot be made)
    family = gen.pick(rng, NAMES)
    for k, n in enumerate(rng.sample(family, rng.randrange(2, len(family) + 1))):
        made = settings(rng)
        if made is None:
            continue
        y, cfg = made
        module = "%s%d_%s" % (rng.choice("abz"), k, rng.choice(["m", "to", "x1"]))
        if rng.random() < 0.15:
            # it cannot be made of its YAML
            y = rng.choice(["", "tokens: [", "a: b\n", y.replace("token_class", "token_clas"), y + "\nwhitespace: {}\n"])
            if rng.random() < 0.4:
                y = "tokens: {a: [x], ' ': [wb]}\nrules: {'<x> a': X, 'a <x>': Y}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n"
            cfg = None
        d = os.path.join(TD, module)
        write(os.path.join(top, d, "__init__.py"), INIT % (n, rng.choice(["YAML", "JSON"])))
        write(os.path.join(top, d, module + ".yaml"), y)
        if rng.random() < 0.5:
            write(os.path.join(top, d, "tests", module + "_tests.yaml"), "{}\n")
        of[n] = (d, module, y, cfg)
    for n, module in (("Example", "example"), ("ITRANSDevanagariToUnicode", "itrans_devanagari_to_unicode")):
        d = os.path.join(TD, module)
        path = os.path.join(top, d, module + ".yaml")
        if os.path.exists(path):
            with open(path, encoding="utf-8") as f:
                y = f.read()
            of[n] = (d, module, y, easyparse.config_of_yaml(y))
    steps = []
    for _ in range(rng.randrange(6, 13)):
        files = {}
        for n, (d, module, y, cfg) in of.items():
            x = rng.random()
            if x < 0.6:
                files[os.path.join(d, module + ".json")] = rng.choice(["", "stale", "{}", "{\"tokens\": {}}", "x" * 100000])
            if x < 0.25 and cfg is not None and n not in ("Example", "ITRANSDevanagariToUnicode"):
                made = settings(rng)
                if made is not None:
                    # written anew after it was imported
                    of[n] = (d, module) + made
                    files[os.path.join(d, module + ".yaml")] = made[0]
        if rng.random() < 0.55:
            p = pattern(rng, list(of))
            args = ["make-json", rng.choice(["-re", "--regex"]), p]
            if rng.random() < 0.2:
                args = ["make-json", p, "-re"]
            chosen = [n for n in of if re.match(p, n)]
        else:
            p = literal(rng, list(of))
            args = ["make-json", p]
            chosen = [n for n in of if n == p]
        steps.append({"files": files, "args": args, "of": dict(of), "chosen": chosen})
    mon.current = {"names": sorted(of), "commands": short([s["args"] for s in steps], 2000)}
    env = dict(os.environ, PYTHONPATH=top, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(rng.randrange(1, 999)))
    if rng.random() < 0.2 and all(n.isascii() for n in of):
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
    cwd = rng.choice([top, os.path.join(top, TD), os.environ["VERIF_SCRATCH"]])
    job = {"top": top, "steps": [{"files": s["files"], "args": s["args"]} for s in steps]}
    p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "lib", "makejob.py")], input=json.dumps(job).encode("ascii"), env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
    if p.returncode:
        raise Violation("the process with the bundled transliterators fails", output=short(p.stderr.decode("utf-8", "replace"), 2000))
    out = json.loads(p.stdout.decode("ascii"))
    same("names of the bundled transliterators", sorted(out["names"]), sorted(of))
    for s, r in zip(steps, out["steps"]):
        judge(rng, mon, s, r)
    mon.feature(tuple(sorted(of)), tuple(len(s["chosen"]) for s in steps))
    mon.sample({"commands": short([s["args"] for s in steps], 400), "chosen": short([s["chosen"] for s in steps], 300)})


def judge(rng, mon, s, r):
    of, chosen, changed = s["of"], s["chosen"], r["changed"]
    d = dict(args=s["args"], chosen=chosen, exit=r["exit"], exception=r["exception"], output=short(r["output"], 600))
    fine = [n for n in chosen if of[n][3] is not None]
    path = {n: os.path.join(of[n][0], of[n][1] + ".json") for n in of}
    mon.count("commands")
    mon.count("regex" if len(s["args"]) > 2 else "by_name")
    if not chosen:
        mon.count("none_chosen")
    more = set(changed) - {path[n] for n in fine}
    if more:
        raise Violation("files were changed that are not the JSON of what was asked for", files=sorted(more), **d)
    lines = sorted(x for x in r["output"].split("\n") if x.startswith("Made JSON of"))
    if len(fine) == len(chosen):
        if r["exit"] != 0:
            raise Violation("make-json fails though what was asked for can be made", **d)
        if lines != sorted("Made JSON of %s." % n for n in chosen):
            raise Violation("make-json tells of other transliterators than asked for", **d)
        if not chosen and "No bundled" not in r["output"]:
            raise Violation("make-json does not tell that there is none", **d)
        for n in chosen:
            # unless it held that already
            text = changed.get(path[n])
            if text is None:
                if path[n] in s["files"] or path[n] in changed:
                    raise Violation("the JSON of what was asked for was not made", which=n, **d)
                mon.count("unchanged")
                continue
            check(rng, mon, n, of[n], text, d)
    else:
        mon.count("failing")
        if r["exit"] == 0:
            raise Violation("make-json succeeds though its YAML does not make a transliterator", **d)
        for n in fine:
            text = changed.get(path[n])
            if text is not None:
                check(rng, mon, n, of[n], text, d)


def check(rng, mon, n, bundle, text, d):
    cfg = bundle[3]
    try:
        gt = G.loads(text)
    except Exception as e:
        raise Violation("the JSON made cannot be loaded", name=n, error=repr(e)[:300], text=short(text, 600), **d)
    want = build(cfg)
    same("settings of the JSON made", settings_of(gt), settings_of(want), which=n, **d)
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0) for _ in range(3)]
    gt.ignore_errors = want.ignore_errors = rng.random() < 0.5
    same_behaviour("the JSON made", behaviour(gt, inputs), behaviour(want, inputs), which=n, **d)
    same("data of the JSON made", json.loads(text), json.loads(G.from_yaml(bundle[2]).dumps()), which=n, **d)
    mon.count("made")
    mon.feature(cfg_shape(cfg))
