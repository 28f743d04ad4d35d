"""C15: only serializations of a later version are refused."""
import json

from base import G, Violation, gtlib, short
import gen
from util import IncorrectVersionException, build, behaviour

ID = "C15"
OPTIONAL = ["graph", "tokenizer_pattern", "tokens_by_class", "onmatch_rules_lookup", "ignore_errors", "metadata"]


def numbers(v):
    return [int(x) for x in v.split(".")]


def versions(rng):
    cur = numbers(gtlib.__version__)
    out = []
    for _ in range(8):
        x = rng.random()
        if x < 0.55:
            v = list(cur)
            k = rng.randrange(len(v))
            y = rng.random()
            if y < 0.3:
                v[k] += rng.choice([1, 2, 6, 7, 8, 9, 10, 95, 100, 999])
            elif y < 0.5:
                v[k] = int("%d%d" % (v[k], rng.randrange(10)))
            else:
                v[k] = rng.randrange(0, 13)
            if rng.random() < 0.3:
                j = rng.randrange(len(v))
                v[j] = rng.choice([0, 1, 9, 10, 11, 99, 100])
        elif x < 0.9:
            v = [rng.choice([0, 1, 1, 2, 3, 9, 10, 11, 20, 100]) for _ in range(3)]
        elif x < 0.95:
            v = list(cur)
        else:  # of another number of components
            k = rng.randrange(1, len(cur))
            v = rng.choice([cur[:k], cur[:k - 1] + [cur[k - 1] + rng.randrange(1, 12)], cur + [rng.randrange(1, 20)]])
        out.append(v)
    return cur, out


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(maxrules=4, big=0, metadata=0.2))
    ign = rng.random() < 0.3
    gt = build(cfg, ignore_errors=ign)
    cur, vs = versions(rng)
    want = behaviour(gt, ["", gen.text(rng, cfg, n=4)])
    for v in vs:
        s = ".".join(map(str, v))
        if rng.random() < 0.25 and any(a != b for a, b in zip(v, cur)):
            # a suffix, where the numbers before it decide
            s += rng.choice(["rc1", "a2", "b10", ".dev3", ".post1", "rc.9", "-beta", ".dev"])
            mon.count("suffixed")
        for lvl in range(3):
            js = rng.random() < 0.5
            d = dict(gt.dump(lvl))
            kw = {}
            if rng.random() < 0.3:
                kw["check_ambiguity"] = False
            if rng.random() < 0.2:
                kw["ignore_errors"] = ign
            gone = [k for k in OPTIONAL if k in d and rng.random() < 0.15]
            for k in gone:
                d.pop(k)
            if "ignore_errors" in gone and ign:
                kw["ignore_errors"] = ign
            mon.current = {"version": s, "level": lvl, "json": js, "options": kw, "removed": gone, "ignore_errors": ign}
            d["graphtransliterator_version"] = s
            if rng.random() < 0.3:
                keys = list(d)
                rng.shuffle(keys)
                d = {k: d[k] for k in keys}
            try:
                g = G.loads(json.dumps(d), **kw) if js else G.load(d, **kw)
                refused = False
            except IncorrectVersionException:
                refused = True
            later = v > cur
            mon.count("loads")
            mon.count("later" if later else "same" if v == cur else "earlier")
            mon.feature(s)
            if refused != later:
                raise Violation("serialization of %s version was %s" % ("a later" if later else "no later", "refused" if refused else "accepted"),
                                version=s, current=gtlib.__version__, level=lvl, json=js, options=kw, removed=gone, ignore_errors=ign)
            if not refused:
                if behaviour(g, [w[1] for w in want if w[0] == "t"]) != want:
                    raise Violation("behaviour depends on the named version", version=s)
    # no version named
    for lvl in range(3):
        d = dict(gt.dump(lvl))
        d.pop("graphtransliterator_version")
        mon.current = {"version": None, "level": lvl}
        G.load(d)
        G.loads(json.dumps(d))
        mon.count("unnamed")
    # a dump names this version
    for lvl in range(3):
        if json.loads(gt.dumps(lvl)).get("graphtransliterator_version") != gtlib.__version__:
            raise Violation("dump does not name the library version", level=lvl)
    mon.sample({"versions": [".".join(map(str, v)) for v in vs], "current": gtlib.__version__})
