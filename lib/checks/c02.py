"""C02: matching all returns exactly the applicable rules, each once."""
from collections import Counter

from base import G, Violation, short
import gen
import ref
from util import build, in_any_order, rule_set, cfg_shape

ID = "C02"


def check_all(gt, model, rules, toks, mon):
    for i in range(len(toks)):
        got = gt.match_at(i, list(toks), match_all=True)
        want = Counter(model.rules[n] for n in model.applicable(toks, i))
        mon.count("positions")
        if got is None or any(isinstance(k, bool) or not isinstance(k, int) or not 0 <= k < len(rules) for k in got):
            raise Violation("result is not a list of rule indices", got=repr(got), position=i, tokens=toks)
        if len(set(got)) != len(got):
            raise Violation("a rule is listed twice", got=list(got), position=i, tokens=toks)
        have = Counter(rules[k] for k in got)
        if have != want:
            raise Violation("matching rules are not the applicable ones", position=i, tokens=toks,
                            missing=list((want - have).elements()), extra=list((have - want).elements()))
        one = gt.match_at(i, list(toks))
        if (one is None) != (not got) or (one is not None and one not in got):
            raise Violation("single match and all matches disagree", one=one, all=list(got), position=i, tokens=toks)
        if got:
            mon.count("matches", len(got))
            mon.maximum("matches_at_once", len(got))
            mon.feature(tuple(sorted((len(r.t), len(r.pc) + len(r.pt), len(r.nt) + len(r.nc)) for r in want)), i == 1, i >= len(toks) - 2)


def case(rng, mon):
    x = rng.random()
    if x < 0.5:
        o = gen.Opts(maxtokens=3, total=0.5, context=0.35, min_rules=4, onmatch=0.05, metadata=0.1)
    elif x < 0.7:
        o = gen.Opts(maxtokens=3, longrule=0.3, min_rules=6, total=0.5, dup=0.3)
    else:
        o = gen.Opts(min_rules=1)
    cfg = gen.config(rng, o)
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    if rng.random() < 0.2:
        lvl = rng.randrange(3)
        gt = G.loads(gt.dumps(lvl))
        mon.count("loaded")
    elif rng.random() < 0.2:
        gt = in_any_order(rng, gt)
        mon.count("other_order")
    rules = rule_set(gt)
    mem = gen.members(cfg)
    mon.count("configs")
    mon.feature(cfg_shape(cfg))
    for _ in range(6):
        toks = gen.framed_seq(rng, cfg, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), mem)
        mon.current["tokens"] = toks
        check_all(gt, model, rules, toks, mon)
    for _ in range(4):
        toks = gen.near_seq(rng, cfg, mem)
        mon.current["tokens"] = toks
        check_all(gt, model, rules, toks, mon)
    mon.sample({"cfg": short(cfg, 300), "tokens": short(toks, 200)})
