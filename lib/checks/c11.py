"""C11: ambiguity is reported exactly for really overlapping, uncovered pairs."""
import json

from base import G, LOG, Violation, short
import gen
import ref
from util import in_any_order, AmbiguousTransliterationRulesException
from checks import c10
from graphtransliterator.ambiguity import check_for_ambiguity

ID = "C11"


OPEN, SHUT = " \t(<['\",", " \t)>]'\","


def shown(text, r):
    """Whether a text shows a rule: its classes and tokens in the order in which they have to match, each one apart."""
    at = 0
    for t in r.pc + r.pt + r.t + r.nt + r.nc:
        ends = []
        for f in {t, repr(t)[1:-1]}:
            i = text.find(f, at)
            while i >= 0 and not ((i == 0 or text[i - 1] in OPEN) and (i + len(f) == len(text) or text[i + len(f)] in SHUT)):
                i = text.find(f, i + 1)
            if i >= 0:
                ends.append(i + len(f))
        if not ends:
            return False
        at = min(ends)
    return True


def named(msg, r, s):
    """Whether a warning shows two rules."""
    every = r.pc + r.pt + r.t + r.nt + r.nc + s.pc + s.pt + s.t + s.nt + s.nc
    lines = [li for li in msg.split("\n") if li.strip()]
    if any("\n" in t for t in every) or len(lines) < 3:
        # the lines of the warning are not to be told apart
        return all(t in msg or repr(t)[1:-1] in msg for t in every)
    a = [k for k, li in enumerate(lines) if shown(li, r)]
    b = [k for k, li in enumerate(lines) if shown(li, s)]
    return bool(a and b) and len({*a, *b}) > 1


def case(rng, mon):
    x = rng.random()
    if x < 0.7:
        o = c10.opts(rng)
    else:
        o = gen.Opts(min_rules=2, onmatch=0.2, metadata=0.1, big=0.02, dup=0.05, total=0.8, maxrules=40)
    cfg = gen.config(rng, o)
    y = rng.random()
    if rng.random() < 0.015:
        cfg = c10.wide(rng)
        mon.count("wide")
    elif y < 0.45:
        cfg = c10.repair(rng, cfg)
        if rng.random() < 0.5 and len(cfg["rules"]) > 1:
            # nearly unambiguous: remove one (perhaps covering) rule or change one condition
            if rng.random() < 0.5:
                del cfg["rules"][rng.randrange(len(cfg["rules"]))]
            else:
                r = gen.pick(rng, cfg["rules"])
                cls = sorted({c for cs in cfg["tokens"].values() for c in cs})
                r[gen.pick(rng, ["prev_classes", "next_classes"])] = [gen.pick(rng, cls)]
    mon.current = {"cfg": cfg}
    rules = [ref.rule(r) for r in cfg["rules"]]
    toks = {k: frozenset(v) for k, v in cfg["tokens"].items()}
    pairs = ref.ambiguous_pairs(rules, toks)
    mon.count("configs")
    LOG.take()
    try:
        G.from_dict(gen.direct(cfg), check_ambiguity=True)
        refused = False
    except AmbiguousTransliterationRulesException:
        refused = True
    msgs = [w.getMessage() for w in LOG.warnings()]
    need = {}
    for r in rules:
        need.setdefault(r.need, []).append(r)
    groups = sum(1 for g in need.values() if len(g) > 1)
    mon.maximum("equal_groups", groups)
    if refused and not pairs:
        raise Violation("refused though no two rules are ambiguous", warnings=short(msgs))
    if pairs and not refused:
        i, j, m = pairs[0]
        raise Violation("ambiguous rules were accepted", rules=[rules[i], rules[j]], overlap=short(sorted((o, sorted(s)) for o, s in m.items())), pairs=len(pairs))
    if pairs:
        mon.count("refused")
        mon.count("ambiguous_pairs", len(pairs))
        mon.maximum("pairs", len(pairs))
        for i, j, _ in pairs:
            if not any(named(m, rules[i], rules[j]) for m in msgs):
                raise Violation("an ambiguous pair is not named in any warning", rules=[rules[i], rules[j]], warnings=short(msgs, 3000))
        if len(msgs) < len(pairs):
            raise Violation("fewer warnings than ambiguous pairs", warnings=len(msgs), pairs=len(pairs))
        mon.feature("R", tuple(sorted((rules[i].need, tuple(map(len, rules[i][1:])), tuple(map(len, rules[j][1:]))) for i, j, _ in pairs[:6])))
        # without the check the configuration is accepted
        try:
            LOG.take()
            G.from_dict(gen.direct(cfg), check_ambiguity=False)
        except AmbiguousTransliterationRulesException:
            raise Violation("refused though ambiguity is not to be checked")
    else:
        mon.count("accepted")
        if msgs:
            raise Violation("a warning was logged for an unambiguous configuration", warnings=short(msgs))
        overl = [(i, j) for g in need.values() for i in range(len(g)) for j in range(i) if ref.meet(ref.box(g[i], ref.by_class_of(toks)), ref.box(g[j], ref.by_class_of(toks)))]
        if overl:
            mon.count("accepted_because_covered")
        mon.feature("A", tuple(sorted(tuple(map(len, r[1:])) for r in rules)), len(overl))
    if rng.random() < 0.4:
        by_hand(rng, cfg, msgs, pairs, mon)
    if rng.random() < 0.3:
        on_demand(rng, cfg, msgs, pairs, mon)
    mon.sample({"rules": short(rules, 300), "pairs": len(pairs), "refused": refused})


def by_hand(rng, cfg, msgs, pairs, mon):
    """The rules handed over in whatever order, to the constructor or in a serialization."""
    gt = G.from_dict(gen.direct(cfg), check_ambiguity=False)
    if not gt.rules:
        return
    LOG.take()
    how = rng.choice(["constructor", "load", "loads"])
    try:
        if how == "constructor":
            in_any_order(rng, gt, check_ambiguity=True)
        else:
            d = gt.dump(rng.choice([0, 0, 1, 2])) if rng.random() < 0.5 else gt.dump(0)
            if isinstance(d.get("rules"), list) and "compressed_settings" not in d:
                rng.shuffle(d["rules"])
                d.pop("graph", None)
            if how == "load":
                G.load(d, check_ambiguity=True)
            else:
                G.loads(json.dumps(d), check_ambiguity=True)
        refused = False
    except AmbiguousTransliterationRulesException:
        refused = True
    got = [w.getMessage() for w in LOG.warnings()]
    if refused != bool(pairs):
        raise Violation("the rules in another order are judged otherwise", how=how, refused=refused, pairs=len(pairs))
    if len(got) != len(msgs):
        raise Violation("the rules in another order are warned of otherwise", how=how, got=short(got), want=short(msgs))
    mon.count("by_hand")


def on_demand(rng, cfg, msgs, pairs, mon):
    """The check asked for of a transliterator made without it."""
    gt = G.from_dict(gen.direct(cfg), check_ambiguity=False, ignore_errors=rng.random() < 0.5)
    x = rng.randrange(3)
    if x == 0:
        gt = G.loads(gt.dumps(rng.randrange(3)))
    elif x == 1:
        gt = gt.pruned_of([])
    LOG.take()
    for _ in range(2):
        try:
            check_for_ambiguity(gt)
            refused = False
        except AmbiguousTransliterationRulesException:
            refused = True
        if refused != bool(pairs):
            raise Violation("checking on demand finds other than constructing", refused=refused, pairs=len(pairs), made=("loaded", "pruned", "as is")[x])
        again = [w.getMessage() for w in LOG.warnings()]
        if len(again) != len(msgs):
            raise Violation("checking on demand warns of other than constructing", got=short(again), want=short(msgs))
    mon.count("checked_on_demand")
