"""C22: measuring coverage does not change behaviour; no visit record is shared."""
import json

from base import G, LOG, Violation, short
import gen
import ref
from util import build, outcome, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape
from graphtransliterator import CoverageTransliterator

ID = "C22"


def dumps_of(gt):
    out = []
    for lvl in range(3):
        for d in (json.loads(json.dumps(gt.dump(lvl))), json.loads(gt.dumps(lvl))):
            if not d.get("onmatch_rules"):
                d.pop("onmatch_rules", None)  # none and no on-match rules are the same
            out.append(json.dumps(d, sort_keys=True))
    return out


def covered(base, rng, **kw):
    a = dict(onmatch_rules=base.onmatch_rules, metadata=base.metadata, ignore_errors=base.ignore_errors, check_ambiguity=False)
    if rng.random() < 0.5:
        a["graph"] = base.graph
    if rng.random() < 0.5:
        a["onmatch_rules_lookup"] = base.onmatch_rules_lookup
    if rng.random() < 0.5:
        a["tokens_by_class"] = base.tokens_by_class
    if rng.random() < 0.5:
        a["tokenizer_pattern"] = base.tokenizer_pattern
    a.update(kw)
    return CoverageTransliterator(base.tokens, base.rules, base.whitespace, **a)


def record(ct):
    """The visit record as far as it can be observed."""
    LOG.take()
    a = ct.check_coverage(raise_exception=False)
    msgs = [r.getMessage() for r in LOG.take()]
    b = ct.check_onmatchrules_coverage(raise_exception=False)
    msgs += [r.getMessage() for r in LOG.take()]
    return a, b, msgs


def operate(rng, ct, texts, seqs, k=None):
    if k is None:
        k = rng.randrange(7)
    if k == 0:
        ct.clear_visited()
    elif k == 1:
        ct.check_coverage(raise_exception=False)
    elif k == 2:
        try:
            ct.check_coverage()
        except Exception as e:
            if type(e).__name__ not in ("IncompleteGraphCoverageException", "IncompleteOnMatchRulesCoverageException"):
                raise
    elif k == 3:
        ct.check_onmatchrules_coverage(raise_exception=False)
    elif k == 4:
        behaviour(ct, [gen.pick(rng, texts)])
    elif k == 5:
        ct.dumps(rng.randrange(3))
    else:
        t = gen.pick(rng, seqs)
        for i in range(len(t)):
            ct.match_at(i, t, match_all=rng.random() < 0.5)


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.02, maxrules=14, onmatch=0.6, dup=0.1))
    base = build(cfg, ignore_errors=rng.random() < 0.5)
    mem = gen.members(cfg)
    texts = [gen.text(rng, cfg, n=rng.randrange(0, 12), mem=mem, errors=0.3) for _ in range(4)] + [""]
    seqs = [gen.framed_seq(rng, cfg, 5, mem) for _ in range(2)]
    mon.current = {"cfg": cfg, "texts": texts}
    want = settings_of(base), graph_of(base), behaviour(base, texts, seqs), dumps_of(base)

    def agree(name, g):
        same("%s: settings" % name, settings_of(g), want[0])
        same("%s: graph" % name, graph_of(g), want[1])
        same_behaviour(name, behaviour(g, texts, seqs), want[2])
        if dumps_of(g) != want[3]:
            for x, y in zip(dumps_of(g), want[3]):
                same("%s: dump" % name, x, y)
        mon.count("comparisons")

    ct = covered(base, rng)
    same("matched before any use", ([ref.rule(r) for r in ct.last_matched_rules], list(ct.last_matched_rule_tokens)), ([], []))
    # made from the same parts, or from those of one already measuring
    src = gen.pick(rng, [base, ct])
    ct2 = covered(src, rng, graph=src.graph)
    if src is ct:
        mon.count("made_from_measuring")
    agree("coverage-measuring", ct)
    agree("ordinary, having been measured from", base)
    # no visit record is shared, in any direction
    empty = record(ct2)
    fresh = record(covered(base, rng))
    if record(covered(ct, rng)) != fresh:
        raise Violation("one made from the parts of a coverage-measuring transliterator has been visited", want=short(fresh))
    if empty != fresh:
        raise Violation("using one transliterator changed the visit record of another made from the same parts", got=short(empty), want=short(fresh))
    for step in range(rng.randrange(2, 6)):
        a, b = (ct, ct2) if rng.random() < 0.5 else (ct2, ct)
        if rng.random() < 0.6:
            b.clear_visited()
            if rng.random() < 0.5:
                operate(rng, b, texts, seqs)
        before = record(b)
        others = [base, b.pruned_of([]), G.loads(b.dumps(rng.randrange(3))), b.pruned_of(b.productions[:1])]
        operate(rng, a, texts, seqs)
        for o in others:
            o.ignore_errors = True
            behaviour(o, texts, seqs)
        base.ignore_errors = want[0]["ignore_errors"]
        if record(b) != before:
            raise Violation("operations on other transliterators changed a visit record", before=short(before), after=short(record(b)))
        mon.count("records_compared")
        if any(before[2]):
            mon.count("incomplete_records")
        agree("coverage-measuring, after operations", a)
        # what the last call did stays, whatever is done about coverage after it
        t = gen.pick(rng, texts)
        r = [outcome(g.transliterate, t) for g in (a, base)]
        if r[0] != r[1]:
            raise Violation("coverage-measuring: outcome differs", input=t, got=short(r[0]), want=short(r[1]))
        done = []
        for _ in range(rng.randrange(1, 3)):
            k = rng.choice([0, 0, 1, 2, 3, 5, 6])
            done.append(k)
            operate(rng, a, texts, seqs, k)
        x, y = [(list(g.last_input_tokens), [ref.rule(z) for z in g.last_matched_rules], [list(z) for z in g.last_matched_rule_tokens]) for g in (a, base)]
        if x != y:
            raise Violation("details of the last call differ after coverage operations", input=t, operations=done, got=short(x), want=short(y))
        mon.count("details_after_operations")
    p = ct.pruned_of(ct.productions[:1])
    q = base.pruned_of(base.productions[:1])
    same("pruned from coverage-measuring: settings", settings_of(p), settings_of(q))
    same_behaviour("pruned from coverage-measuring", behaviour(p, texts, seqs), behaviour(q, texts, seqs))
    om = ct.onmatch_rules
    if list(om or [])[:2] != list(base.onmatch_rules or [])[:2] or list((om or [])[:2]) != list((base.onmatch_rules or [])[:2]):
        raise Violation("on-match rules differ")
    mon.count("configs")
    mon.feature(cfg_shape(cfg))
    mon.sample({"rules": len(cfg["rules"]), "texts": texts[:2]})


def probe_bundled(rng, mon):
    import graphtransliterator.transliterators as T

    for name in ("Example", "ITRANSDevanagariToUnicode"):
        cls = getattr(T, name)
        for method in ("json", "yaml"):
            a = cls.new(method=method, coverage=False, check_ambiguity=False)
            b = cls.new(method=method, coverage=True, check_ambiguity=False)
            for g in (a, b):
                g.ignore_errors = True
            toks = list(a.tokens)
            texts = ["".join(gen.pick(rng, toks) for _ in range(8)) for _ in range(12)]
            mon.current = {"bundled": name, "method": method}
            same_behaviour("%s with coverage" % name, behaviour(b, texts), behaviour(a, texts))
            same("%s settings" % name, settings_of(b), settings_of(a))
            c = cls.new(method=method, coverage=True, check_ambiguity=False)
            LOG.take()
            if c.check_coverage(raise_exception=False):
                raise Violation("a new bundled transliterator has been visited", name=name, method=method)
            mon.count("bundled")


PROBES = [probe_bundled]
