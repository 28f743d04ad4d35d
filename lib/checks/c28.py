"""C28: every operation ends after work bounded by its input.

The monitor counts the source lines executed in the library (sys.settrace) and compares the
count with bounds computed from the settings and the input alone, and with the counts of the
same operation on inputs and settings twice and four times as long.  What no line counts, the
matching of regular expressions, runs in a process with a limit on CPU time."""
import json
import math
import os
import subprocess
import sys

from base import G, LOG, PKG, REPO, StepLimit, Violation, count_steps, short
import gen
from graphtransliterator.exceptions import GraphTransliteratorException
from marshmallow import ValidationError
from util import build, cfg_shape

ID = "C28"
CASE_S = 120.0

DOCUMENTED = (ValueError, ValidationError, GraphTransliteratorException)


def parts(r):
    return sum(len(r.get(k) or ()) for k in ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes"))


def match_bound(cfg):
    return 240 + sum(80 + 60 * parts(r) for r in cfg["rules"])


def onmatch_bound(cfg):
    return 20 + sum(20 + 10 * (len(o["prev_classes"]) + len(o["next_classes"])) for o in cfg.get("onmatch_rules") or ())


def run_bound(cfg, n):
    return 600 + (n + 2) * (60 + match_bound(cfg) + onmatch_bound(cfg))


def size(cfg):
    return (10 + sum(1 + len(c) for c in cfg["tokens"].values()) + sum(2 + parts(r) for r in cfg["rules"])
            + sum(2 + len(o["prev_classes"]) + len(o["next_classes"]) for o in cfg.get("onmatch_rules") or ()))


def build_bound(cfg):
    """Construction: graph, lookup of on-match rules, references checked."""
    s = size(cfg)
    t = len(cfg["tokens"])
    o = len(cfg.get("onmatch_rules") or ())
    return 2000 + 150 * s + 30 * s * (1 + o) + 12 * o * t * t + 20 * len(cfg["rules"]) * s


def ambiguity_bound(cfg):
    r = len(cfg["rules"])
    w = 2 + 2 * max([parts(x) for x in cfg["rules"]] or [0])
    return 2000 + 200 * size(cfg) + r * w * 8 + (r * (r + 1) // 2) * (20 + 12 * w + r * (10 + 6 * w))


def measured(what, func, limit, mon, **details):
    LOG.take()
    try:
        res, n = count_steps(lambda: attempt(func), limit)
    except StepLimit:
        raise Violation("%s did not end within the bound" % what, bound=limit, **details)
    mon.count("calls")
    mon.count("steps", n)
    mon.maximum("permille_of_bound_" + what, 1000 * n // limit)
    return res, n


def attempt(func):
    try:
        return ("ok", func())
    except DOCUMENTED as e:
        return ("error", type(e).__name__)


def linear(what, counts, slack, mon, steps_of, times, **details):
    """counts of the same operation at lengths n, 2n, 4n of a periodic input.

    The slack is what a few positions at the ends, where the period is cut, may take.  As the
    ends may take more (a long rule that the input is in step with at one length only), growth
    counts when it is there at longer lengths too: what happens at the ends does not grow."""
    seen = []
    for k in (1, 5, 17):
        if k > 1:
            counts = [steps_of(times * k * m) for m in (1, 2, 4)]
        seen.append(counts)
        a, b, c = counts
        if c - b <= 2.5 * abs(b - a) + slack:
            break
        mon.count("growth_suspected")
    else:
        raise Violation("%s: work does not grow linearly with the length of the input" % what, steps=seen, times=times, **details)
    mon.count("linear_checks")


def inputs_for(rng, cfg):
    mem = gen.members(cfg)
    out = []
    for _ in range(3):
        unit = gen.text(rng, cfg, rng.choice([1, 2, 3, 7]), errors=0.3, mem=mem, long=0)
        out.append(unit or gen.pick(rng, gen.UNKNOWN))
    if cfg["rules"]:
        r = gen.pick(rng, cfg["rules"])
        out.append("".join(r["tokens"][:-1]) or r["tokens"][0])
    ws = cfg["whitespace"]["default"]
    out.append(rng.choice([ws, ws * 2, "\u2603", "\x00" + ws]))
    return out


def run_case_on(rng, cfg, mon, budget=60000):
    mon.feature(cfg_shape(cfg))
    gt, n = measured("construction", lambda: build(cfg, check_ambiguity=False), build_bound(cfg), mon)
    mon.count("configs")
    if gt[0] != "ok":
        mon.count("refused")
        return
    gt = gt[1]
    if len(cfg["rules"]) <= 40:
        measured("ambiguity", lambda: build(cfg, check_ambiguity=True), ambiguity_bound(cfg) + build_bound(cfg), mon)
        mon.count("ambiguity_checks")
    for ignore in (True, False):
        gt.ignore_errors = ignore
        for unit in inputs_for(rng, cfg):
            mon.current["unit"] = unit
            n = max(8, min(120, budget // (20 * (60 + match_bound(cfg) // 8) * max(1, len(unit)))))
            if rng.random() < 0.25:
                n = rng.choice([1, 2, 3])
            cs, ks = [], []
            for k in (n, 2 * n, 4 * n):
                s = unit * k
                r, c = measured("transliterate", lambda: gt.transliterate(s), run_bound(cfg, len(s)), mon, unit=unit, times=k, ignore=ignore)
                cs.append(c)
                mon.maximum("length", len(s))
                mon.count(r[0] if r[0] == "ok" else r[1])
                r2, c2 = measured("tokenize", lambda: gt.tokenize(s), 300 + 60 * (len(s) + 2), mon, unit=unit, times=k, ignore=ignore)
                ks.append(c2)
            slack = 400 + 2 * (match_bound(cfg) + onmatch_bound(cfg))
            def translit(k):
                s = unit * k
                return measured("transliterate", lambda: gt.transliterate(s), run_bound(cfg, len(s)), mon, unit=unit, times=k, ignore=ignore)[1]

            def tokenize(k):
                s = unit * k
                return measured("tokenize", lambda: gt.tokenize(s), 300 + 60 * (len(s) + 2), mon, unit=unit, times=k, ignore=ignore)[1]

            linear("transliterate", cs, slack, mon, translit, n, unit=unit, ignore=ignore)
            linear("tokenize", ks, 400, mon, tokenize, n, unit=unit, ignore=ignore)
            mon.feature("run", ignore, len(unit), n, r[0])
            if r2[0] == "ok":
                toks = r2[1]
                for i in {1, len(toks) // 2, len(toks) - 1}:
                    for every in (False, True):
                        measured("match_at", lambda: gt.match_at(i, toks, match_all=every), match_bound(cfg), mon, unit=unit)
    gt.ignore_errors = False
    s = size(cfg)
    for level in (0, 1, 2):
        d, _ = measured("dump", lambda: gt.dump(level), 6 * build_bound(cfg), mon, level=level)
        if d[0] == "ok":
            measured("load", lambda: G.load(d[1], check_ambiguity=False), 6 * build_bound(cfg), mon, level=level)
    measured("prune", lambda: gt.pruned_of([p for p in gt.productions if rng.random() < 0.5]), 6 * build_bound(cfg), mon)


# ------------------------------------------------------- families of settings


def ws():
    return {"default": " ", "token_class": "wb", "consolidate": False}


def family_chain(m):
    """a, aa, aaa, ... : every position tries all of them."""
    return {"tokens": {"a": ["c"], "b": [], " ": ["wb"]}, "whitespace": ws(),
            "rules": [{"tokens": ["a"] * (i + 1) + ["b"], "production": "x"} for i in range(m)] + [{"tokens": ["a"], "production": "a"}]}, "a"


def family_context(m):
    """m rules of the same tokens with long contexts, which nearly apply."""
    return {"tokens": {"a": ["c", "d"], "b": ["d"], " ": ["wb"]}, "whitespace": ws(),
            "rules": [{"tokens": ["a"], "prev_classes": ["c"] * (i % 5 + 1), "prev_tokens": ["a"] * (i // 5 + 1), "next_tokens": ["a"] * 2,
                       "next_classes": ["c"] * (i % 3) + ["wb"], "production": "x"} for i in range(m)] + [{"tokens": ["a"], "production": "a"}, {"tokens": ["b"], "production": "b"}]}, "aab"


def family_tree(m):
    """A tree of tokens all of whose inner nodes have rules that do not apply."""
    rules = []
    for i in range(m):
        t = ["ab"[(i >> k) & 1] for k in range(4)][: i % 4 + 1]
        rules.append({"tokens": t, "prev_tokens": ["b", "b", "a"][: i % 3 + 1], "next_classes": ["wb"], "production": "p%d" % i})
    return {"tokens": {"a": ["c"], "b": ["c"], " ": ["wb"]}, "whitespace": ws(),
            "rules": rules + [{"tokens": ["a"], "production": "a"}, {"tokens": ["b"], "production": "b"}]}, "abba"


def family_onmatch(m):
    """m on-match rules that apply but for their furthest class."""
    return {"tokens": {"a": ["c"], "b": ["c", "d"], " ": ["wb"]}, "whitespace": ws(),
            "rules": [{"tokens": ["a"], "production": "a"}, {"tokens": ["b"], "production": "b"}],
            "onmatch_rules": [{"prev_classes": ["d"] + ["c"] * (i % 4), "next_classes": ["c"] * (i % 3) + ["d"], "production": "-"} for i in range(m)]}, "aab"


def family_tokens(m):
    """Tokens that are prefixes of each other."""
    toks = {"a" * (i + 1): ["c%d" % (i % 7)] for i in range(m)}
    toks[" "] = ["wb"]
    return {"tokens": toks, "whitespace": ws(), "rules": [{"tokens": [t], "production": t} for t in toks]}, "aab"


def family_ambiguous(m):
    """Many rules of the same cost."""
    return {"tokens": {"t%d" % i: ["c%d" % (i % 3), "d"] for i in range(m)} | {" ": ["wb"]} if sys.version_info >= (3, 9)
            else dict([("t%d" % i, ["c%d" % (i % 3), "d"]) for i in range(m)] + [(" ", ["wb"])]), "whitespace": ws(),
            "rules": [{"tokens": ["t%d" % i], "next_classes": ["c%d" % (i % 3)], "production": "x"} for i in range(m)]
            + [{"tokens": ["t%d" % i], "prev_classes": ["d"], "production": "y"} for i in range(m // 2)]}, "t0t1"


FAMILIES = [family_chain, family_context, family_tree, family_onmatch, family_tokens, family_ambiguous]


def family_case(rng, mon):
    f = gen.pick(rng, FAMILIES)
    m = rng.randrange(4, 11)
    mon.current = {"family": f.__name__, "m": m}
    build_counts, run_counts, amb_counts, dump_counts = [], [], [], []
    for k in (m, 2 * m, 4 * m):
        cfg, unit = f(k)
        g, n = measured("construction", lambda: build(cfg), build_bound(cfg), mon, family=f.__name__, m=k)
        if g[0] != "ok":
            raise Violation("settings refused", family=f.__name__, m=k, error=g[1])
        build_counts.append(n)
        g = g[1]
        _, n = measured("ambiguity", lambda: build(cfg, check_ambiguity=True), ambiguity_bound(cfg) + build_bound(cfg), mon, family=f.__name__, m=k)
        amb_counts.append(n)
        g.ignore_errors = True
        _, n = measured("transliterate", lambda: g.transliterate(unit * 20), run_bound(cfg, 20 * len(unit)), mon, family=f.__name__, m=k)
        run_counts.append(n)
        _, n = measured("dump", lambda: g.dump(rng.randrange(3)), 6 * build_bound(cfg), mon, family=f.__name__, m=k)
    for what, counts, degree in (("construction", build_counts, 3), ("ambiguity", amb_counts, 4), ("transliterate", run_counts, 2)):
        a, b, c = counts
        # the first two may be close together by chance (work that ends at once at small sizes)
        if c - b > 1.3 * 2 ** degree * max(b - a, b) + 2000:
            raise Violation("%s: work grows faster than a polynomial of degree %d of the settings" % (what, degree), steps=counts, family=f.__name__, m=m)
    mon.count("families")
    mon.feature("family", f.__name__, m)


# ----------------------------------------------------------- hostile settings


def degenerate(rng):
    """Settings at the edge of what is accepted: refused, or they do not make anything loop."""
    cfg = gen.config(rng, gen.Opts(maxtokens=4, maxrules=6, min_rules=1))
    texts = inputs_for(rng, cfg)
    x = rng.randrange(7)
    if x == 0:
        cfg["tokens"][""] = []
    elif x == 1:
        cfg["rules"].append({"tokens": [], "production": "x"})
    elif x == 2:
        cfg["tokens"][""] = [cfg["whitespace"]["token_class"]]
        cfg["whitespace"]["default"] = ""
        cfg["rules"].append({"tokens": [""], "production": "x"})
    elif x == 3:
        cfg["rules"] = []
        cfg["onmatch_rules"] = None
    elif x == 4:
        c = cfg["whitespace"]["token_class"]
        cfg["onmatch_rules"] = [{"prev_classes": [], "next_classes": [c], "production": "x"}] if rng.random() < 0.5 else [{"prev_classes": [c], "next_classes": [], "production": "x"}]
    elif x == 5:
        t = gen.pick(rng, sorted(cfg["tokens"]))
        for r in cfg["rules"][:2]:
            r["next_tokens"] = [t] * 40
            r["prev_tokens"] = [t] * 40
    else:
        c = cfg["whitespace"]["token_class"]
        for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes"):
            if rng.random() < 0.5:
                cfg["rules"][0][k] = []
    return cfg, x, texts


def serialized(cfg):
    """Settings in the form of a dump without what can be derived."""
    d = gen.direct(cfg)
    for r in d["rules"]:
        r["cost"] = math.log2(1 + 1 / (1 + sum(len(r.get(k) or []) for k in ("tokens", "prev_classes", "prev_tokens", "next_tokens", "next_classes"))))
    d["rules"].sort(key=lambda r: r["cost"])
    return d


def degenerate_case(rng, mon):
    cfg, x, texts = degenerate(rng)
    mon.current = {"cfg": cfg}
    mon.feature("degenerate", x)
    mon.count("degenerate")
    make = lambda: build(cfg)
    if rng.random() < 0.5:  # as a compacted serialization
        make = lambda: G.load(serialized(cfg))
        mon.count("degenerate_loads")
    # bounds as if every element was one longer
    g, _ = measured("construction", make, 3 * build_bound(cfg), mon)
    if g[0] != "ok":
        mon.count("refused")
        return
    g = g[1]
    for ignore in (True, False):
        g.ignore_errors = ignore
        for unit in texts + ["", "\u2603"]:
            s = unit * rng.choice([1, 2, 9])
            measured("transliterate", lambda: g.transliterate(s), run_bound(cfg, len(s)), mon, text=s)
            measured("tokenize", lambda: g.tokenize(s), 300 + 60 * (len(s) + 2), mon, text=s)


# ------------------------------------------------- regular expressions, by CPU


def hostile_key(rng, k):
    atom = rng.choice(["<a> ", "<a>  ", " <a> ", "a ", "( ", "(", ") ", "<", "<a", " ", "\n", "<a>", "(a ", "<a> a ", "> ", "<a>\t", "a (", "(<a> ", "a <"])
    head = rng.choice(["", "(", "(<a> ", "<a> ", "a ", "a (", "a (b ", " ", "("])
    tail = rng.choice(["", ")", "b", "b)", ") ", " a", ") a", "\n", " (", "<", " <a", "b" + " " * k, ") a (b <a>", ">"])
    return head + atom * k + tail


def hostile_items(rng):
    items = []
    for _ in range(40):
        items.append(["rule", hostile_key(rng, rng.choice([3, 12, 24, 40]))])
    for _ in range(10):
        k = rng.choice([3, 12, 24, 40])
        items.append(["onmatch", rng.choice(["<a> ", "<a>", "<", "<a", "> ", "<a>  "]) * k + rng.choice(["", "+", " + "]) + rng.choice(["<a> ", "<a>", "<", " <a", ">"]) * rng.choice([0, 1, k])])
    items.append(["yaml", "a: \\N{" + "A " * 40 + rng.choice(["", "}"])])
    items.append(["version", rng.choice(["1.", "1..", ".", "0", "1"]) * rng.choice([5, 200])])
    toks = ["a" * i for i in range(1, 9)] + ["a" * i + "b" for i in range(1, 9)]
    rng.shuffle(toks)
    tokens = {t: [] for t in toks}
    tokens[" "] = ["wb"]
    items.append(["tokenize", {"tokens": tokens, "text": "a" * 400 + rng.choice(["b", "!", " "]) + "a" * 400}])
    return items


def regex_case(rng, mon, items=None):
    items = items or hostile_items(rng)
    mon.current = {"items": len(items)}
    cpu = 60
    p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "stepjob.py")],
                       input=json.dumps({"items": items, "cpu": cpu, "repo": REPO}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    lines = p.stdout.decode().splitlines()
    done = bool(lines) and lines[-1] == "done"
    got = [json.loads(x) for x in lines if x != "done"]
    if not done:
        if p.returncode in (-24, -9, 152) and len(got) < len(items):
            raise Violation("construction did not end within %d s of CPU time" % cpu, item=items[len(got)], cpu_of_those_before=sum(x[2] for x in got))
        raise RuntimeError("job ended %s: %s" % (p.returncode, p.stderr.decode()[-1500:]))
    for i, res, t in got:
        mon.count("hostile_" + items[i][0])
        mon.count("hostile_accepted" if res == "ok" else "hostile_refused")
        mon.maximum("ms_of_CPU_of_an_item", int(1000 * t))
        mon.feature("key", short(items[i][1], 200))


def probe_regexes(rng, mon):
    items = []
    for k in (10, 24, 40):
        for s in ("(" + "<a> " * k + "b", "(" + "<a> " * k + "b)", "(" + "<a> " * k + "b" + " " * k, "<a> " * k, "<a>  " * k + "b", "(" * k + "b", "b (" + "c <a> " * k,
                  "b " + "(<a> " * k, "(" + "<a>" * k, "<" * k, " <" * k, "b" + " <a>" * k + " (", "b" + " <" * k):
            items.append(["rule", s])
        for s in ("<a>" * k + "+", "<a> " * k, "<" * k, "<a> " * k + "+" + "<a> " * k + "<", "<a>+" + "<b>  " * k + "c"):
            items.append(["onmatch", s])
    regex_case(rng, mon, items)


PROBES = [probe_regexes]


def case(rng, mon):
    x = rng.random()
    if x < 0.03:
        regex_case(rng, mon)
    elif x < 0.2:
        family_case(rng, mon)
    elif x < 0.4:
        degenerate_case(rng, mon)
    else:
        cfg = gen.config(rng, gen.Opts(maxrules=40, min_rules=1, big=0, longrule=0.2, onmatch=0.6, onmatch_many=0.2))
        mon.current = {"cfg": cfg}
        run_case_on(rng, cfg, mon)
        mon.sample({"cfg": short(cfg, 300), "unit": short(mon.current.get("unit"))})
