"""C06: on-match insertions."""
from base import G, Violation, short
import gen
import ref
from util import build, outcome

ID = "C06"


def config(rng):
    o = gen.Opts(maxtokens=rng.choice([2, 4, 6]), min_rules=1, maxrules=8, total=rng.choice([1.0, 1.0, 0.4]), ws_rule=1.0, onmatch=1.0,
                 onmatch_many=0.25, metadata=0.05, ws_multi=0.4, unique_prods=0.9, dup=0.0, big=0.01)
    for _ in range(20):
        cfg = gen.config(rng, o)
        if cfg.get("onmatch_rules"):
            return cfg
    return cfg


def case(rng, mon):
    cfg = config(rng)
    if not cfg.get("onmatch_rules"):
        return
    # unique, self-delimiting productions make the insertion at every step visible
    for i, r in enumerate(cfg["rules"]):
        r["production"] = "<%d>" % i
    unique = rng.random() < 0.85
    for i, r in enumerate(cfg["onmatch_rules"]):
        r["production"] = "[%d]" % i if unique else gen.pick(rng, ["", ",", "[0]", "%s", "\u094d"])
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    ign = rng.random() < 0.4
    gt = build(cfg, ignore_errors=ign)
    if rng.random() < 0.25:
        gt = G.load(gt.dump(rng.randrange(3)))
        mon.count("loaded")
    mem = gen.members(cfg)
    mon.count("configs")
    mon.maximum("onmatch_rules", len(cfg["onmatch_rules"]))
    for _ in range(8):
        s = gen.text(rng, cfg, mem=mem, long=0.004)
        mon.current["input"] = s
        r = outcome(gt.transliterate, s)
        if r[0] != "ok":
            run = model.run(s)
            if not run["bad"] and not run["nomatch"] and not run["ties"]:
                raise Violation("input was refused though rules cover it", input=s, got=r)
            continue
        out = r[1]
        toks = list(gt.last_input_tokens)
        matched = [ref.rule(x) for x in gt.last_matched_rules]
        i, pos, n = 1, 0, 0
        skipped = set()
        for m in matched:
            while ign and i < len(toks) and not model.best(toks, i):
                skipped.add(i)
                i += 1
            k = model.onmatch_at(toks, i)
            if i - 1 in skipped:
                mon.count("decisions_after_unmatched")
            want = ("" if k is None else model.onmatch[k][2]) + m.prod
            mon.count("decisions")
            if not out.startswith(want, pos):
                raise Violation("wrong insertion before a match", input=s, tokens=short(toks), position=i, rule=m,
                                want=want, output=short(out), at=pos, on_match=k)
            applicable = [x for x, (p, q, _) in enumerate(model.onmatch)
                          if i >= len(p) and i + len(q) <= len(toks)
                          and all(model.has(toks[i - len(p) + y], c) for y, c in enumerate(p))
                          and all(model.has(toks[i + y], c) for y, c in enumerate(q))]
            if k is not None:
                p, q, _ = model.onmatch[k]
                mon.count("insertions")
                if len(applicable) > 1:
                    mon.count("priority_decisions")
                if len(p) > 1 or len(q) > 1:
                    mon.count("multi_class_insertions")
                mon.feature(len(p), len(q), k, len(applicable), i == len(p), i + len(q) == len(toks), len(m.t))
            pos += len(want)
            i += len(m.t)
            n += 1
        else:
            if pos != len(out):
                raise Violation("output has more than productions and insertions", input=s, output=short(out), rest=short(out[pos:]))
    mon.sample({"onmatch": short(cfg["onmatch_rules"], 300), "input": short(s, 100), "result": short(r, 120)})


def probe_boundaries(rng, mon):
    """Contexts that touch or exceed the framed sequence."""
    for a in range(1, 5):
        for b in range(1, 5):
            for cons in (True, False):
                cfg = {
                    "tokens": {"a": ["x", "any"], "b": ["any"], " ": ["wb", "any"]},
                    "rules": [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"]}, {"production": "_", "tokens": [" "]}],
                    "onmatch_rules": [{"prev_classes": ["any"] * a, "next_classes": ["any"] * b, "production": "+"}],
                    "whitespace": {"default": " ", "token_class": "wb", "consolidate": cons},
                }
                mon.current = {"cfg": cfg}
                model = ref.Model(cfg)
                gt = build(cfg)
                for s in ("", "a", "ab", "aba", "abab", "ababab", " a ", "  ab  b "):
                    run = model.run(s)
                    got = outcome(gt.transliterate, s)
                    mon.count("decisions")
                    if got != ("ok", run["output"]):
                        raise Violation("insertion at a boundary differs", input=s, got=got, want=run["output"])


def probe_many(rng, mon):
    """More rules between the same tokens than anyone would write by hand."""
    for n in (3, 40, 70, 150):
        toks = {t: ["any", "is_" + t] for t in "abcd"}
        toks["d"] = ["any"]
        toks[" "] = ["wb"]
        om = []
        names = ["is_a", "is_b", "is_c", "any", "wb"]
        for i in range(n):
            # most differ only beyond the tokens next to each other
            p = [gen.pick(rng, names) for _ in range(rng.choice([1, 2, 3, 4]))] + ["any"]
            q = ["any"] + [gen.pick(rng, names) for _ in range(rng.choice([1, 2, 3, 4]))]
            om.append({"prev_classes": p, "next_classes": q, "production": "[%d]" % i})
        om.append({"prev_classes": ["any"], "next_classes": ["any"], "production": "[last]"})
        cfg = {"tokens": toks, "rules": [{"production": t.upper(), "tokens": [t]} for t in toks], "onmatch_rules": om,
               "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
        model = ref.Model(cfg)
        gt = build(cfg)
        for g in (gt, G.loads(gt.dumps(0)), G.loads(gt.dumps(2))):
            for _ in range(6):
                s = "".join(gen.pick(rng, "abcd ab") for _ in range(60))
                mon.current = {"cfg": cfg, "input": s}
                got = outcome(g.transliterate, s)
                want = model.run(s)["output"]
                mon.count("decisions", 60)
                if got != ("ok", want):
                    raise Violation("wrong insertions among many on-match rules", rules=n, input=s, got=short(got), want=short(want))


PROBES = [probe_boundaries, probe_many]
