"""C09: everything configured is kept; rules are ordered by specificity with the documented cost."""
from collections import Counter

from base import G, Violation, short
import gen
import ref
from util import build, same, cfg_shape

ID = "C09"


def check(gt, cfg, mon):
    want = [ref.rule(r) for r in cfg["rules"]]
    rules = list(gt.rules)
    got = [ref.rule(r) for r in rules]
    if Counter(got) != Counter(want):
        raise Violation("rules were lost, added or changed", missing=short(list((Counter(want) - Counter(got)).elements())),
                        extra=short(list((Counter(got) - Counter(want)).elements())))
    prev = None
    for r, x in zip(rules, got):
        c = ref.cost(x.need)
        if not abs(r.cost - c) <= 1e-12:
            raise Violation("cost of a rule is not the documented one", rule=x, got=r.cost, want=c)
        if prev is not None:
            if r.cost < prev[0].cost:
                raise Violation("rules are not in order of cost", first=prev[1], second=x)
            if (x.need < prev[1].need) != (r.cost > prev[0].cost):
                raise Violation("a rule requiring more does not cost strictly less", first=prev[1], second=x)
        prev = (r, x)
        mon.count("rules")
        mon.maximum("need", x.need)
    same("productions", list(gt.productions), [x.prod for x in got])
    same("tokens and classes", {k: frozenset(v) for k, v in gt.tokens.items()}, {k: frozenset(v) for k, v in cfg["tokens"].items()})
    bc = {k: frozenset(v) for k, v in gt.tokens_by_class.items() if v}
    same("tokens by class", bc, ref.by_class_of(cfg["tokens"]))
    same("on-match rules", [ref.onmatch(o) for o in (gt.onmatch_rules or [])], [ref.onmatch(o) for o in cfg.get("onmatch_rules") or []])
    w = gt.whitespace
    same("whitespace", (w.default, w.token_class, bool(w.consolidate)),
         (cfg["whitespace"]["default"], cfg["whitespace"]["token_class"], cfg["whitespace"]["consolidate"]))
    same("metadata", gt.metadata or {}, cfg.get("metadata") or {})


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=0, longrule=0.15, big=0.12, onmatch=0.6))
    mon.current = {"cfg": cfg}
    gt = build(cfg)
    check(gt, cfg, mon)
    x = rng.random()
    if x < 0.5:
        gt = G.load(gt.dump(rng.randrange(3))) if x < 0.25 else G.loads(gt.dumps(rng.randrange(3)))
        check(gt, cfg, mon)
        mon.count("loaded")
    mon.count("configs")
    mon.maximum("rules_in_config", len(cfg["rules"]))
    mon.feature(cfg_shape(cfg))
    mon.sample({"cfg": short(cfg, 400)})


def probe_costs(rng, mon):
    """Every number of required tokens from 1 to 90, in each field."""
    toks = {"a": ["x"], " ": ["wb"]}
    rules = []
    for n in range(1, 91):
        rules.append({"production": "T%d" % n, "tokens": ["a"] * n})
        for f, v in (("prev_classes", "x"), ("prev_tokens", "a"), ("next_tokens", "a"), ("next_classes", "x")):
            rules.append({"production": "%s%d" % (f, n), "tokens": ["a"], f: [v] * n})
    rng.shuffle(rules)
    cfg = {"tokens": toks, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    mon.current = {"cfg": "rules of 1..90 required tokens"}
    gt = build(cfg)
    check(gt, cfg, mon)
    for lvl in range(3):
        check(G.loads(gt.dumps(lvl)), cfg, mon)


PROBES = [probe_costs]
