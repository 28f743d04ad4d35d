"""C13: serialized settings may be compacted."""
import copy
import json

from base import G, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape

ID = "C13"
TOP = ["graph", "tokenizer_pattern", "tokens_by_class", "onmatch_rules_lookup", "graphtransliterator_version"]
PARTS = ["prev_classes", "prev_tokens", "next_tokens", "next_classes"]


def plain(x):
    """Plain nested data, as a user would write it."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [plain(v) for v in x]
    return x


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.02, onmatch=0.6))
    mon.current = {"cfg": cfg}
    gt = build(cfg, ignore_errors=rng.random() < 0.3)
    full = plain(gt.dump(0)) if rng.random() < 0.5 else json.loads(gt.dumps(0))
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0) for _ in range(4)]
    seqs = [gen.framed_seq(rng, cfg, 6, mem)]
    whole = G.load(copy.deepcopy(full))
    want = settings_of(whole), graph_of(whole), behaviour(whole, inputs, seqs)
    mon.count("configs")
    for _ in range(5):
        d = copy.deepcopy(full)
        dropped = [k for k in TOP if rng.random() < 0.5]
        for k in dropped:
            d.pop(k, None)
        how = rng.choice(["absent", "none", "empty", "mixed"])
        costs = rng.random() < 0.5
        for r in d["rules"]:
            if costs:
                r.pop("cost", None)
            for p in PARTS:
                if not r.get(p):
                    h = how if how != "mixed" else rng.choice(["absent", "none", "empty"])
                    r.pop(p, None)
                    if h == "none":
                        r[p] = None
                    elif h == "empty":
                        r[p] = []
        if "onmatch_rules_lookup" not in d and not d.get("onmatch_rules"):
            h = rng.choice(["absent", "none", "empty"])
            d.pop("onmatch_rules", None)
            if h == "none":
                d["onmatch_rules"] = None
            elif h == "empty":
                d["onmatch_rules"] = []
        if not d.get("metadata") and rng.random() < 0.5:
            d.pop("metadata", None)
        for k in ("graph", "onmatch_rules_lookup"):
            if k in dropped and rng.random() < 0.3:
                d[k] = None
        mon.current["compacted"] = (dropped, how, costs)
        js = rng.random() < 0.5
        g = G.loads(json.dumps(d)) if js else G.load(d)
        same("settings compacted by %s" % ((dropped, how, costs),), settings_of(g), want[0])
        same("graph compacted by %s" % ((dropped, how, costs),), graph_of(g), want[1])
        same_behaviour("compacted by %s" % ((dropped, how, costs),), behaviour(g, inputs, seqs), want[2])
        mon.count("compactions")
        mon.count("drops", len(dropped))
        mon.feature(tuple(dropped), how, costs, js, bool(cfg.get("onmatch_rules")))
    mon.feature(cfg_shape(cfg))
    mon.sample({"cfg": short(cfg, 200), "dropped": dropped, "parts": how, "costs_dropped": costs})
