"""C12: serialization round-trips at every level."""
import json

from base import G, LOG, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape

ID = "C12"

FORMS = [("py", 0), ("py", 1), ("py", 2), ("json", 0), ("json", 1), ("json", 2)]


def roundtrip(gt, form):
    kind, lvl = form
    if kind == "py":
        return G.load(gt.dump(lvl))
    return G.loads(gt.dumps(lvl))


def dumps_of(gt):
    out = {}
    for lvl in range(3):
        # as data: the order of keys of the uncompressed form is not significant
        out["json", lvl] = json.dumps(json.loads(gt.dumps(lvl)), sort_keys=True)
        out["py", lvl] = json.dumps(gt.dump(lvl), sort_keys=True)
    return out


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.06, longrule=0.1, onmatch=0.6, metadata=0.75))
    mon.current = {"cfg": cfg}
    ign = rng.random() < 0.4
    gt = build(cfg, ignore_errors=ign)
    if rng.random() < 0.15:
        prods = [r["production"] for r in cfg["rules"]]
        gt = gt.pruned_of([p for p in prods if rng.random() < 0.5])
        mon.count("pruned")
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0) for _ in range(5)]
    seqs = [gen.framed_seq(rng, cfg, 6, mem) for _ in range(2)]
    want_s, want_g, want_b = settings_of(gt), graph_of(gt), behaviour(gt, inputs, seqs)
    want_d = dumps_of(gt)
    mon.count("configs")
    mon.feature(cfg_shape(cfg), ign)
    for form in FORMS:
        # a chain: load this form, then the dump of the result in another form
        chain = [form] + [gen.pick(rng, FORMS) for _ in range(rng.choice([0, 0, 1, 2]))]
        cur = gt
        for f in chain:
            cur = roundtrip(cur, f)
        mon.current["chain"] = chain
        same("settings after %s" % chain, settings_of(cur), want_s)
        same("graph after %s" % chain, graph_of(cur), want_g)
        same_behaviour("after %s" % chain, behaviour(cur, inputs, seqs), want_b)
        if rng.random() < 0.5:
            got = dumps_of(cur)
            for k in want_d:
                if got[k] != want_d[k]:
                    raise Violation("dump of the loaded transliterator differs from dump of the original", chain=chain, dump=k,
                                    got=short(got[k]), want=short(want_d[k]))
            mon.count("redumps")
        mon.count("roundtrips")
        mon.count("form_%s%d" % form)
        mon.maximum("chain", len(chain))
    mon.maximum("rules", len(cfg["rules"]))
    mon.maximum("tokens", len(cfg["tokens"]))
    mon.sample({"cfg": short(cfg, 300), "dump": short(want_d["json", 2], 300)})


def probe_empty(rng, mon):
    """No rules, no metadata, no classes on any but the whitespace token."""
    cfg = {"tokens": {"a": [], " ": ["wb"]}, "rules": [], "whitespace": {"default": " ", "token_class": "wb", "consolidate": True}}
    mon.current = {"cfg": cfg}
    for ign in (True, False):
        gt = build(cfg, ignore_errors=ign)
        want = settings_of(gt), behaviour(gt, ["", "a", " ", "b"])
        for f in FORMS:
            g = roundtrip(gt, f)
            same("settings after %s" % (f,), settings_of(g), want[0])
            same_behaviour("after %s" % (f,), behaviour(g, ["", "a", " ", "b"]), want[1])


def probe_large(rng, mon):
    """Hundreds of tokens, classes and rules: indices of every size."""
    n = 700
    toks = {"t%d" % i: ["c%d" % (i % 300), "d%d" % (i % 7)] for i in range(n)}
    toks["-"] = ["wb"]
    rules = []
    for i in range(n):
        r = {"production": "p%d" % i, "tokens": ["t%d" % i]}
        if i % 3 == 0:
            r.update(prev_classes=["c%d" % ((i * 7) % 300)], next_tokens=["t%d" % ((i * 11) % n)])
        if i % 5 == 0:
            r.update(next_classes=["c%d" % ((i * 13) % 300), "d%d" % (i % 7)], prev_tokens=["t0", "t%d" % ((i * 3) % n)])
        rules.append(r)
    cfg = {"tokens": toks, "rules": rules, "onmatch_rules": [{"prev_classes": ["c%d" % i], "next_classes": ["d%d" % (i % 7)], "production": "+%d" % i} for i in range(0, 300, 9)],
           "whitespace": {"default": "-", "token_class": "wb", "consolidate": False}}
    mon.current = {"cfg": "large"}
    gt = build(cfg)
    inputs = ["".join("t%d" % rng.randrange(n) + rng.choice(["", "", "-"]) for _ in range(40)) for _ in range(3)]
    want = settings_of(gt), graph_of(gt), behaviour(gt, inputs)
    for f in FORMS:
        g = roundtrip(gt, f)
        same("settings after %s" % (f,), settings_of(g), want[0])
        same("graph after %s" % (f,), graph_of(g), want[1])
        same_behaviour("after %s" % (f,), behaviour(g, inputs), want[2])


def probe_long(rng, mon):
    """Rules that require few and very many tokens, whose costs are close to each other."""
    toks = {"a": ["x"], "b": ["x", "y"], " ": ["wb"]}
    for part in ("prev_tokens", "next_classes", "tokens"):
        rules = []
        for n in sorted(rng.sample(range(1, 40), 12) + rng.sample(range(40, 1500), 12) + (rng.sample(range(1500, 12000), 24) if part != "tokens" else [])):
            for b in (0, 1):
                r = {"production": "%d" % (n + b), "tokens": ["a"]}
                r[part] = (r["tokens"] if part == "tokens" else []) + ["x" if part == "next_classes" else "b"] * (n + b)
                rules.append(r)
        cfg = {"tokens": toks, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
        mon.current = {"cfg": "long", "lengths": [r["production"] for r in rules], "part": part}
        gt = build(cfg)
        want = settings_of(gt), graph_of(gt), [r.cost for r in gt.rules]
        for f in FORMS:
            g = roundtrip(gt, f)
            same("settings after %s" % (f,), settings_of(g), want[0])
            same("costs after %s" % (f,), [r.cost for r in g.rules], want[2])
            same("graph after %s" % (f,), graph_of(g), want[1])
        mon.count("long_rules", len(rules))


PROBES = [probe_empty, probe_large, probe_long]
