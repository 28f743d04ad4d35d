"""C19: pruning removes exactly the rules with the given productions."""
from base import G, LOG, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape

ID = "C19"
PRODS = ["", "A", "AA", "AAA", "B", "AB", "BA", "a", " ", "\n", "\u0915", "\u0915\u093e", "[", ",", "None", "0", "A B", "\u00e9", "e\u0301"]


def choose(rng, prods):
    """Productions to prune: present ones, absent ones, parts of present ones."""
    out = []
    uniq = sorted(set(prods))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        x = rng.random()
        if uniq and x < 0.65:
            out.append(gen.pick(rng, uniq))
        elif uniq and x < 0.75:
            p = gen.pick(rng, uniq)
            out.append(p + gen.pick(rng, ["A", "", "x"]))
        elif uniq and x < 0.85:
            p = gen.pick(rng, uniq)
            out.append(p[: rng.randrange(len(p) + 1)])
        else:
            out.append(gen.pick(rng, PRODS))
    if rng.random() < 0.04:
        out = uniq
    if out and rng.random() < 0.2:
        out.append(out[0])
    return out


def view(gt):
    return settings_of(gt), graph_of(gt)


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.03, onmatch=0.5, min_rules=1))
    if rng.random() < 0.8:
        few = rng.sample(PRODS, rng.randrange(1, 8))
        for r in cfg["rules"]:
            r["production"] = gen.pick(rng, few)
    amb_ok = False
    mon.current = {"cfg": cfg}
    gt = build(cfg, ignore_errors=rng.random() < 0.4)
    how = rng.random()
    if how < 0.2:
        gt = G.loads(gt.dumps(rng.randrange(3)))
        mon.count("loaded")
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0) for _ in range(4)]
    seqs = [gen.framed_seq(rng, cfg, 6, mem) for _ in range(2)]
    chain = [gt]
    removed = []
    for step in range(rng.choice([1, 1, 2, 3])):
        cur = chain[-1]
        before = [view(g) for g in chain]
        beh = behaviour(chain[0], inputs, seqs)
        arg = choose(rng, [r["production"] for r in cfg["rules"]])
        as_str = len(arg) == 1 and rng.random() < 0.7
        given = arg[0] if as_str else list(arg)
        mon.current["prune"] = given
        new = cur.pruned_of(given)
        if not as_str and given != arg:
            raise Violation("the list of productions was modified", got=short(given), want=short(arg))
        want_rules = [r for r in before[-1][0]["rules"] if r[0] not in set(arg)]
        got = settings_of(new)
        if got["rules"] != want_rules:
            raise Violation("pruning kept the wrong rules", pruned=given, got=short(got["rules"]), want=short(want_rules))
        for k in ("tokens", "onmatch", "whitespace", "metadata", "ignore_errors", "tokens_by_class", "lookup"):
            same("pruned transliterator's %s" % k, got[k], before[-1][0][k])
        # one configured from those rules; they are given sorted, in their order
        removed += arg
        fresh_cfg = dict(gen.direct(cfg))
        fresh_cfg["rules"] = [as_dict(r) for r in want_rules]
        ref_gt = build(fresh_cfg, ignore_errors=new.ignore_errors)
        same_behaviour("pruned", behaviour(new, inputs, seqs), behaviour(ref_gt, inputs, seqs), pruned=given)
        for g, b in zip(chain, before):
            if view(g) != b:
                raise Violation("pruning or using the pruned transliterator changed the original", pruned=given)
        same_behaviour("the original after pruning", behaviour(chain[0], inputs, seqs), beh)
        chain.append(new)
        mon.count("prunings")
        mon.count("as_str" if as_str else "as_list")
        n = len(before[-1][0]["rules"]) - len(want_rules)
        mon.count("rules_removed", n)
        mon.count("rules_kept", len(want_rules))
        if "" in arg and n:
            mon.count("empty_production_requested")
        if any(p and any(p in r[0] and p != r[0] for r in want_rules) for p in arg):
            mon.count("substring_of_kept")
        mon.feature(cfg_shape(cfg), step, n, len(want_rules), as_str)
    mon.sample({"pruned": short(removed, 200), "rules": len(cfg["rules"])})


def probe_many(rng, mon):
    """Long lists of productions, and many rules."""
    n = 130
    toks = {chr(0x4E00 + i): ["c%d" % (i % 5)] for i in range(n)}
    names = list(toks)
    toks[" "] = ["wb"]
    cfg = {"tokens": toks, "rules": [{"production": "p%d" % (i // 2), "tokens": [t] + [names[(3 * i) % n]] * (i % 3)} for i, t in enumerate(names)],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    gt = build(cfg)
    before = settings_of(gt)
    for k in (1, 5, 9, 17, 20, 33, 50, 64, 65):
        prods = rng.sample(["p%d" % i for i in range(n // 2)] + ["absent%d" % i for i in range(20)], k)
        if k > 20:
            prods += rng.sample(prods, 5)
        mon.current = {"cfg": "many", "prune": prods}
        new = gt.pruned_of(list(prods) if rng.random() < 0.7 else tuple(prods))
        want = [r for r in before["rules"] if r[0] not in set(prods)]
        if settings_of(new)["rules"] != want:
            raise Violation("pruning by a long list kept the wrong rules", pruned=prods, got=short(new.productions), want=short([r[0] for r in want]))
        if settings_of(gt) != before:
            raise Violation("pruning changed the original", pruned=prods)
        mon.count("prunings")
        mon.maximum("productions_pruned", len(prods))


PROBES = [probe_many]


def as_dict(r):
    d = {"production": r[0], "prev_classes": list(r[1]), "prev_tokens": list(r[2]), "tokens": list(r[3]), "next_tokens": list(r[4]), "next_classes": list(r[5])}
    return {k: v for k, v in d.items() if v or k == "production"}
