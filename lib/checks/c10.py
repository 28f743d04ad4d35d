"""C10: configurations accepted as unambiguous have no ties among best matches."""
import itertools

from base import G, Violation, short
import gen
import ref
from util import in_any_order, AmbiguousTransliterationRulesException

ID = "C10"
KNOWN_BOUNDARY = "ambiguity-cover-beyond-sequence-boundary"


def opts(rng):
    return gen.Opts(maxtokens=rng.choice([2, 3, 4]), min_rules=2, nrules=rng.choice([2, 3, 3, 4, 5, 6, 8]), total=rng.choice([0, 0.5, 1.0]),
                    context=rng.choice([0.15, 0.35, 0.5]), onmatch=0.0, metadata=0.0, big=0.0, dup=0.02, longrule=0.0,
                    styles=[("ascii", 6), ("uni", 1), ("case", 1)])


def accepted(cfg):
    try:
        return G.from_dict(gen.direct(cfg))
    except AmbiguousTransliterationRulesException:
        return None


def repair(rng, cfg):
    """Remove rules until the reference finds no ambiguity (to get accepted configurations often)."""
    cfg = gen.direct(cfg)
    toks = {k: frozenset(v) for k, v in cfg["tokens"].items()}
    for _ in range(14):
        pairs = ref.ambiguous_pairs([ref.rule(r) for r in cfg["rules"]], toks)
        if not pairs:
            break
        i, j, m = gen.pick(rng, pairs)
        if rng.random() < 0.75:
            c = cover_rule(rng, cfg, i, j, m)
            if c is not None:
                cfg["rules"].insert(rng.randrange(len(cfg["rules"]) + 1), c)
                continue
        del cfg["rules"][gen.pick(rng, [i, j])]
    return cfg


def cover_rule(rng, cfg, i, j, m):
    """A rule more specific than rules i and j that matches their whole overlap, or None."""
    ri, rj = ref.rule(cfg["rules"][i]), ref.rule(cfg["rules"][j])
    by = ref.by_class_of({k: frozenset(v) for k, v in cfg["tokens"].items()})
    n = max(len(ri.t), len(rj.t)) if rng.random() < 0.7 else min(len(ri.t), len(rj.t))
    t = [sorted(m[o])[0] for o in range(n) if o in m]
    if len(t) < n or any(len(m[o]) != 1 for o in range(n)):
        return None

    def side(offsets):
        toks, classes = [], []
        for o in offsets:
            if o not in m:
                return None
            fit = [c for c, s in by.items() if m[o] <= s]
            if not classes and len(m[o]) == 1 and (not fit or rng.random() < 0.7):
                toks.append(sorted(m[o])[0])
            elif fit:
                classes.append(gen.pick(rng, sorted(fit)))
            else:
                return None
        return toks, classes

    nxt = side(range(n, max(m) + 1))
    prv = side(range(-1, min(m) - 1, -1))
    if nxt is None or prv is None:
        return None
    r = {"tokens": t, "prev_tokens": prv[0][::-1], "prev_classes": prv[1][::-1], "next_tokens": nxt[0], "next_classes": nxt[1],
         "production": "C%d" % len(cfg["rules"])}
    r = {k: v for k, v in r.items() if v or k == "production"}
    if ref.rule(r).need <= ri.need:
        return None
    return r


def is_boundary(model, toks, i, best):
    """Mechanism of the listed finding: some more specific rule covers the tie's whole
    overlap but reaches beyond the start or end of the sequence here."""
    by = ref.by_class_of(model.tokens)
    allt = frozenset(model.tokens)
    m = ref.meet(ref.box(model.rules[best[0]], by), ref.box(model.rules[best[1]], by))
    if m is None:
        return False
    need = model.rules[best[0]].need
    for r in model.rules:
        if r.need > need:
            b = ref.box(r, by)
            if ref.covers(b, m, allt) and (i + min(b) < 0 or i + max(b) >= len(toks)):
                return True
    return False


def check_sequence(model, toks, mon, gt=None):
    for i in range(1, len(toks) - 1):
        best = model.best(toks, i)
        if best:
            mon.count("best_matches")
        if len(best) > 1:
            known = KNOWN_BOUNDARY if is_boundary(model, toks, i, best) else None
            raise Violation("accepted as unambiguous, but two rules are equally specific here", known=known, tokens=toks, position=i,
                            rules=[model.rules[b] for b in best])
        if gt is not None:
            # the tie must also be absent as the library itself sees the matches
            al = gt.match_at(i, list(toks), match_all=True)
            if al:
                rs = [ref.rule(gt.rules[k]).need for k in al]
                if rs.count(max(rs)) > 1:
                    raise Violation("accepted as unambiguous, but the library finds a tie", tokens=toks, position=i)
                mon.count("library_matches")


def overlap_windows(rng, model, limit):
    """Concrete sequences realising the overlap of each pair of equally specific rules."""
    by = ref.by_class_of(model.tokens)
    alltok = sorted(model.tokens)
    pairs = [(a, b) for a, b in itertools.combinations(range(len(model.rules)), 2) if model.rules[a].need == model.rules[b].need]
    rng.shuffle(pairs)
    for a, b in pairs:
        m = ref.meet(ref.box(model.rules[a], by), ref.box(model.rules[b], by))
        if m is None:
            continue
        lo, hi = min(m), max(m)
        sets = [sorted(m[o]) if o in m else alltok for o in range(lo, hi + 1)]
        total = 1
        for s in sets:
            total *= len(s)
        combos = itertools.product(*sets) if total <= limit else ([gen.pick(rng, s) for s in sets] for _ in range(limit))
        for w in combos:
            yield (a, b), lo, list(w)


def wide(rng):
    """Many equally specific rules, of which perhaps two compete, far apart."""
    n = rng.choice([20, 45, 80, 110])
    names = [chr(0x4E00 + i) for i in range(n)]
    toks = {t: ["all"] for t in names}
    toks.update({"a": ["x", "all"], "b": ["y", "all"], " ": ["wb", "all"]})
    rules = [{"tokens": [t, gen.pick(rng, names)] if rng.random() < 0.8 else [t, t], "production": "R" + t} for t in names]
    two = rng.choice([[("next_classes", "x"), ("prev_classes", "x")], [("next_classes", "x"), ("next_tokens", "a")], [("prev_tokens", "b"), ("prev_classes", "y")],
                      [("next_classes", "x"), ("next_tokens", "b")], [("next_classes", "x")], [("prev_classes", "all"), ("next_classes", "y")]])
    at = sorted(rng.sample(range(len(rules) + 1), len(two))) if rng.random() < 0.5 else [0, len(rules) + 1][:len(two)]
    for i, (k, v) in zip(at, two):
        rules.insert(i, {"tokens": ["a"], k: [v], "production": k})
    if rng.random() < 0.4:
        rules.append({"tokens": ["a"], "production": "A"})
    return {"tokens": toks, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}


def case(rng, mon):
    cfg = gen.config(rng, opts(rng))
    many = rng.random() < 0.01
    if many:
        cfg = wide(rng)
        mon.count("wide")
    elif rng.random() < 0.75:
        cfg = repair(rng, cfg)
    if not cfg["rules"]:
        return
    mon.current = {"cfg": cfg}
    gt = accepted(cfg)
    mon.count("configs")
    if rng.random() < 0.3:
        # the parts handed over by hand, with the rules in whatever order
        try:
            other = in_any_order(rng, gt or G.from_dict(gen.direct(cfg), check_ambiguity=False), check_ambiguity=True)
        except AmbiguousTransliterationRulesException:
            other = None
        if other is not None:
            gt = other
            mon.count("accepted_in_other_order")
    if gt is None:
        mon.count("refused")
        return
    mon.count("accepted")
    model = ref.Model(cfg)
    d = model.default
    alltok = sorted(model.tokens)
    n = 0
    for pair, lo, w in overlap_windows(rng, model, 60):
        mon.count("overlap_windows")
        n += 1
        # the window in the middle of other tokens, at the start, and at the end of a sequence
        for pl, pr in ((3, 3), (0, 0), (0, 3), (3, 0), (1, 1)):
            left = [gen.pick(rng, alltok) for _ in range(pl)]
            right = [gen.pick(rng, alltok) for _ in range(pr)]
            check_sequence(model, [d] + left + w + right + [d], mon, gt if n < 4 else None)
        # the added whitespace may itself be part of the context
        if w[0] == d and lo < 0:
            check_sequence(model, w + [d], mon)
        if w[-1] == d and len(w) > 1:
            check_sequence(model, [d] + w, mon)
        if n > 150:
            break
    for _ in range(20):
        toks = gen.framed_seq(rng, cfg, rng.randrange(1, 9))
        check_sequence(model, toks, mon, gt)
    if n:
        mon.count("accepted_with_overlaps")
        mon.feature(tuple(sorted(tuple(map(len, r[1:])) for r in model.rules)), n)
    mon.sample({"rules": short(model.rules, 400), "overlap_windows": n})


def probe_known_boundary(rng, mon):
    """The listed finding: the covering rule looks beyond the start of the input."""
    cfg = {
        "tokens": {"a": ["x", "all"], "b": ["all"], " ": ["wb", "all"]},
        "rules": [
            {"production": "1", "tokens": ["a"], "prev_classes": ["all"]},
            {"production": "2", "tokens": ["a"], "next_classes": ["all"]},
            {"production": "3", "tokens": ["a"], "prev_classes": ["all", "all"], "next_classes": ["all"]},
        ],
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    }
    mon.current = {"cfg": cfg}
    gt = accepted(cfg)
    if gt is None:
        return  # repaired
    check_sequence(ref.Model(cfg), [" ", "a", " "], mon)


PROBES = [probe_known_boundary]
