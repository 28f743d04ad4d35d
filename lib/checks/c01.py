"""C01: the rule matched at a position is a most specific applicable one."""
from base import G, Violation, short
import gen
import ref
from util import build, in_any_order, rule_set, cfg_shape

ID = "C01"


def check_positions(gt, model, rules, toks, mon, at=None):
    for i in at or range(len(toks)):
        best = model.best(toks, i)
        k = gt.match_at(i, list(toks))
        mon.count("positions")
        if k is None:
            if best:
                raise Violation("no rule matched though some fit", position=i, tokens=toks,
                                fits=[model.rules[b] for b in best])
            mon.count("no_match")
            continue
        if isinstance(k, bool) or not isinstance(k, int) or not 0 <= k < len(rules):
            raise Violation("match is not an index of a rule", got=repr(k), position=i, tokens=toks)
        got = rules[k]
        if not best:
            raise Violation("a rule matched though none fits", position=i, tokens=toks, got=got)
        want = [model.rules[b] for b in best]
        if got not in want:
            raise Violation(
                "matched rule does not fit" if not model.fits(got, toks, i) else "matched rule is not a most specific one",
                position=i, tokens=toks, got=got, want=want)
        mon.count("matched")
        n = len(model.applicable(toks, i))
        if n > 1:
            mon.count("choices")
            mon.maximum("applicable", n)
        mon.feature(len(got.t), len(got.pc), len(got.pt), len(got.nt), len(got.nc), n,
                    i - len(got.pt) - len(got.pc) <= 0, i + len(got.t) + len(got.nt) + len(got.nc) >= len(toks))


def case(rng, mon):
    x = rng.random()
    if x < 0.35:
        o = gen.Opts(maxtokens=3, total=0.4, context=0.4, min_rules=3, onmatch=0.1)
    elif x < 0.5:
        o = gen.Opts(maxtokens=4, longrule=0.3, min_rules=5, total=0.5)
    else:
        o = gen.Opts(min_rules=1)
    cfg = gen.config(rng, o)
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    if rng.random() < 0.25:
        # the same guarantee for a transliterator that was loaded
        lvl = rng.randrange(3)
        gt = G.load(gt.dump(lvl)) if rng.random() < 0.5 else G.loads(gt.dumps(lvl))
        mon.count("loaded")
    elif rng.random() < 0.25:
        # and for one made of rules in another order
        gt = in_any_order(rng, gt)
        mon.count("other_order")
    rules = rule_set(gt)
    mem = gen.members(cfg)
    mon.feature(cfg_shape(cfg))
    mon.count("configs")
    for _ in range(6):
        toks = gen.framed_seq(rng, cfg, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), mem)
        mon.current["tokens"] = toks
        check_positions(gt, model, rules, toks, mon)
    for _ in range(4):
        toks = gen.near_seq(rng, cfg, mem)
        mon.current["tokens"] = toks
        check_positions(gt, model, rules, toks, mon)
    if rng.random() < 0.04:
        # the same anywhere in a long input
        toks = gen.framed_seq(rng, cfg, rng.choice([300, 1500, 6000]), mem)
        mon.current["tokens"] = None
        at = sorted(rng.sample(range(len(toks)), 20)) + list(range(len(toks) - 8, len(toks)))
        check_positions(gt, model, rules, toks, mon, at)
        mon.maximum("position", len(toks))
    if cfg["tokens"]:
        toks = gt.tokenize(gen.text(rng, cfg, n=rng.randrange(12), mem=mem)) if not _ambig(model) else None
        if toks:
            mon.current["tokens"] = toks
            check_positions(gt, model, rules, toks, mon)
    mon.sample({"cfg": short(cfg, 300), "tokens": short(toks, 200)})


def _ambig(model):
    # concatenating tokens always tokenizes (possibly otherwise) unless a prefix gets stuck
    return True


def probe_prefix_tree(mon_rng, mon):
    """A cheap subtree containing a costlier rule next to a cheaper sibling."""
    cfg = {
        "tokens": {"a": ["x"], "b": ["x"], "c": ["y"], " ": ["wb"]},
        "rules": [
            {"production": "C", "tokens": ["c"]},
            {"production": "AB", "tokens": ["a", "b"]},
            {"production": "ABCCCC", "tokens": ["a", "b"], "next_tokens": ["c", "c", "c", "c"]},
            {"production": "CCA", "tokens": ["a"], "prev_tokens": ["c", "c"]},
        ],
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    }
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    toks = [" ", "c", "c", "a", "b", " "]
    check_positions(gt, model, rule_set(gt), toks, mon)


def probe_known_rules_token(rng, mon):
    """The listed finding: a token spelled like the key of a node's rules."""
    cfg = {
        "tokens": {"a": [], "b": [], "__rules__": [], " ": ["wb"]},
        "rules": [
            {"production": "A", "tokens": ["a"]},
            {"production": "B", "tokens": ["b"]},
            {"production": "AR", "tokens": ["a", "__rules__"]},
        ],
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    }
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    try:
        check_positions(gt, model, rule_set(gt), [" ", "a", "b", " "], mon)
    except Violation as e:
        e.known = "token-spelled-like-internal-rules-key"
        raise


PROBES = [probe_prefix_tree, probe_known_rules_token]
