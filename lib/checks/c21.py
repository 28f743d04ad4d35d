"""C21: coverage is reported complete exactly when everything was exercised."""
from base import G, LOG, Violation, short
import gen
import ref
from util import (
    IncompleteGraphCoverageException,
    IncompleteOnMatchRulesCoverageException,
    build,
    cfg_shape,
    outcome,
)
from graphtransliterator import CoverageTransliterator

ID = "C21"


class Tie(Exception):
    pass


class Exercised:
    """What was certainly (lo) and at most (hi) exercised, by the reference semantics."""

    def __init__(self, model):
        self.m = model
        self.clear()

    def clear(self):
        self.lo_r, self.hi_r, self.lo_o, self.hi_o = set(), set(), set(), set()
        self.attempts = 0

    def attempt(self, toks, i, match_all=False):
        """The rules reached when matching at a position."""
        m = self.m
        best = m.best(toks, i)
        need = m.rules[best[0]].need if best else -1
        self.attempts += 1
        for n, r in enumerate(m.rules):
            if tuple(toks[i:i + len(r.t)]) == r.t:
                if match_all or r.need > need or (len(best) == 1 and n == best[0]):
                    self.lo_r.add(n)
                    self.hi_r.add(n)
                elif r.need == need:
                    self.hi_r.add(n)
        return best

    def insertion(self, toks, i):
        """The on-match rules tried before the match at a position."""
        m = self.m
        applied = m.onmatch_at(toks, i)
        for k, (p, nx, prod) in enumerate(m.onmatch):
            if m.has(toks[i - 1], p[-1]) and m.has(toks[i], nx[0]):
                self.lo_o.add(k)
                self.hi_o.add(k)
            if k == applied:
                break

    def transliterate(self, s, strict):
        m = self.m
        toks, bad = m.tokenize(s)
        if bad and strict:
            return
        i = 1
        while i < len(toks) - 1:
            best = self.attempt(toks, i)
            if not best:
                if strict:
                    return
                i += 1
                continue
            if len(best) > 1 and len({m.rules[b].t for b in best}) > 1:
                raise Tie()
            self.insertion(toks, i)
            i += len(m.rules[best[0]].t)

    def all_r(self):
        return set(range(len(self.m.rules)))

    def all_o(self):
        return set(range(len(self.m.onmatch)))


def verify(ct, ex, mon, done):
    """Compares what the coverage checks say with what was exercised."""
    R, O = ex.all_r(), ex.all_o()
    must_r, cannot_r = R <= ex.lo_r and ex.attempts > 0, not R <= ex.hi_r
    must_o, cannot_o = O <= ex.lo_o, not O <= ex.hi_o
    if not R and not ex.attempts:
        must_r, cannot_r = False, False
    LOG.take()
    for _ in range(2):  # checking is not exercising
        got = ct.check_coverage(raise_exception=False)
        goto = ct.check_onmatchrules_coverage(raise_exception=False)
        exc = exco = None
        try:
            res = ct.check_coverage()
            if res is not True:
                raise Violation("check_coverage() neither raised nor returned true", got=res, done=short(done))
        except (IncompleteGraphCoverageException, IncompleteOnMatchRulesCoverageException) as e:
            exc = type(e)
        try:
            ct.check_onmatchrules_coverage()
        except IncompleteOnMatchRulesCoverageException as e:
            exco = type(e)
        d = dict(done=short(done, 3000), missing_rules=short([ex.m.rules[n] for n in R - ex.lo_r]), missing_onmatch=short([ex.m.onmatch[k] for k in O - ex.lo_o]))
        if type(got) is not bool or type(goto) is not bool:
            raise Violation("a coverage check did not return true or false", got=got, **d)
        if got != (exc is None) or goto != (exco is None):
            raise Violation("coverage check differs when asked to raise", got=got, raised=repr(exc), onmatch=goto, raised_onmatch=repr(exco), **d)
        if got and (cannot_r or cannot_o):
            raise Violation("coverage reported complete although not everything was exercised", **d)
        if must_r and must_o and not got:
            raise Violation("coverage reported incomplete although everything was exercised", raised=repr(exc), **d)
        if goto and cannot_o:
            raise Violation("on-match rule coverage reported complete although some were not tried", **d)
        if must_o and not goto:
            raise Violation("on-match rule coverage reported incomplete although all were tried", **d)
        if cannot_r and exc is not IncompleteGraphCoverageException:
            raise Violation("incomplete rules did not raise the graph coverage error", raised=repr(exc), **d)
        if must_r and cannot_o and exc is not IncompleteOnMatchRulesCoverageException:
            raise Violation("incomplete on-match rules did not raise their coverage error", raised=repr(exc), **d)
    mon.count("verdicts")
    if got:
        mon.count("complete")
        if O:
            mon.count("complete_with_onmatch")
    elif must_r:
        mon.count("only_onmatch_missing")
    elif cannot_r and len(R - ex.hi_r) == 1 and must_o:
        mon.count("one_rule_missing")
    mon.feature(len(R), len(ex.lo_r), len(O), len(ex.lo_o), got)


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.0, maxtokens=6, maxrules=10, min_rules=1, onmatch=0.6, dup=0.05, longrule=0.04, context=0.3))
    if cfg.get("onmatch_rules"):
        om = cfg["onmatch_rules"] = cfg["onmatch_rules"][:6]
        if rng.random() < 0.15:
            # one that is never tried
            om.insert(rng.randrange(len(om) + 1), dict(gen.pick(rng, om)))
    # the model in the order of the transliterator's rules
    model = ref.Model(cfg)
    base = build(cfg)
    ign = rng.random() < 0.7
    mon.current = {"cfg": cfg, "ignore_errors": ign}
    other = base
    ct = CoverageTransliterator(base.tokens, base.rules, base.whitespace, onmatch_rules=base.onmatch_rules, metadata=base.metadata,
                                ignore_errors=ign, check_ambiguity=False)
    ex = Exercised(model)
    mem = gen.members(cfg)
    done = []
    mon.current["done"] = done
    verify(ct, ex, mon, done)
    d = model.default
    withheld = rng.randrange(len(model.rules)) if rng.random() < 0.5 else None
    withheld_o = rng.randrange(len(model.onmatch)) if model.onmatch and rng.random() < 0.3 else None

    def directed_rule(n):
        toks = [d] + gen.instantiate(rng, cfg["rules"][n], mem) + [d]
        r = model.rules[n]
        i = 1 + len(r.pc) + len(r.pt)
        return toks, i

    try:
        for step in range(rng.randrange(4, 16)):
            op = rng.random()
            if op < 0.22:
                s = gen.text(rng, cfg, n=rng.randrange(0, 8), mem=mem, errors=0.15)
                done.append(("transliterate", s))
                outcome(ct.transliterate, s)
                ex.transliterate(s, not ign)
            elif op < 0.3:
                toks = gen.framed_seq(rng, cfg, rng.randrange(1, 5), mem)
                i = rng.randrange(1, len(toks))
                al = rng.random() < 0.3
                done.append(("match_at", i, toks, al))
                ct.match_at(i, toks, match_all=al)
                ex.attempt(toks, i, al)
            elif op < 0.62:
                # exercise everything but what is withheld
                ns = [n for n in range(len(model.rules)) if n != withheld]
                rng.shuffle(ns)
                for n in ns:
                    toks, i = directed_rule(n)
                    if withheld is not None and toks[i:i + len(model.rules[withheld].t)] == list(model.rules[withheld].t) and rng.random() < 0.7:
                        continue
                    done.append(("match_at", i, toks))
                    ct.match_at(i, list(toks))
                    ex.attempt(toks, i)
            elif op < 0.8 and model.onmatch:
                ks = [k for k in range(len(model.onmatch)) if k != withheld_o]
                rng.shuffle(ks)
                for k in ks:
                    p, nx, _ = model.onmatch[k]
                    s = "".join([gen.pick(rng, mem[c]) for c in p] + [gen.pick(rng, mem[c]) for c in nx])
                    done.append(("transliterate", s))
                    outcome(ct.transliterate, s)
                    ex.transliterate(s, not ign)
            elif op < 0.84:
                done.append("clear")
                ct.clear_visited()
                ex.clear()
            else:
                # none of these exercises anything
                what = rng.choice(["dump", "settings", "graph", "tokenize", "other", "pruned", "twin", "load"])
                done.append(what)
                if what == "dump":
                    lvl = rng.randrange(3)
                    ct.dump(lvl)
                    ct.dumps(lvl)
                elif what == "settings":
                    for o in ct.onmatch_rules or ():
                        o.production
                    ct.rules, ct.productions, ct.tokens_by_class, ct.onmatch_rules_lookup, ct.metadata, ct.tokenizer_pattern, ct.whitespace
                    str(ct.onmatch_rules), len(ct.onmatch_rules), list(ct.onmatch_rules)
                elif what == "graph":
                    list(ct.graph.node), list(ct.graph.edge), list(ct.graph.edge_list), [dict(e) for e in ct.graph.edge.values()], len(ct.graph.node)
                    repr(ct.graph.node), repr(ct.graph.edge)
                elif what == "tokenize":
                    outcome(ct.tokenize, gen.text(rng, cfg, n=5, mem=mem))
                elif what == "other":
                    for n in range(len(model.rules)):
                        toks, i = directed_rule(n)
                        base.match_at(i, toks)
                    outcome(base.transliterate, gen.text(rng, cfg, n=12, mem=mem))
                elif what == "pruned":
                    p = ct.pruned_of([])
                    p.ignore_errors = True
                    for _ in range(3):
                        outcome(p.transliterate, gen.text(rng, cfg, n=12, mem=mem))
                elif what == "twin":
                    t = CoverageTransliterator(base.tokens, base.rules, base.whitespace, onmatch_rules=base.onmatch_rules, ignore_errors=True,
                                               check_ambiguity=False, graph=base.graph)
                    for _ in range(3):
                        outcome(t.transliterate, gen.text(rng, cfg, n=12, mem=mem))
                else:
                    t = G.loads(ct.dumps(rng.randrange(3)))
                    outcome(t.transliterate, gen.text(rng, cfg, n=12, mem=mem))
                mon.count("not_exercising")
            if rng.random() < 0.75:
                verify(ct, ex, mon, done)
        # now everything
        for n in range(len(model.rules)):
            toks, i = directed_rule(n)
            done.append(("match_at", i, toks, True))
            ct.match_at(i, list(toks), match_all=True)
            ex.attempt(toks, i, True)
        verify(ct, ex, mon, done)
        ct.clear_visited()
        ex.clear()
        done.append("clear")
        verify(ct, ex, mon, done)
        mon.count("histories")
    except Tie:
        mon.count("ties")
    mon.sample({"done": short(done, 400)})


def probe_final_only(rng, mon):
    """Exactly one thing unexercised, for each thing in turn."""
    cfg = {
        "tokens": {"a": ["x"], "b": ["y"], "c": ["x", "y"], " ": ["wb"]},
        "rules": [{"production": p, "tokens": list(p)} for p in ("a", "b", "c", "ab", "abc", "ca")] + [
            {"production": "A", "tokens": ["a"], "prev_classes": ["y"]}, {"production": "S", "tokens": [" "]}],
        "onmatch_rules": [{"prev_classes": ["x"], "next_classes": ["y"], "production": "1"}, {"prev_classes": ["y"], "next_classes": ["x"], "production": "2"},
                          {"prev_classes": ["wb"], "next_classes": ["x"], "production": "3"}],
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    }
    base = build(cfg)
    model = ref.Model(cfg)
    seqs = [([" "] + list(p) + [" "], 1) for p in ("a", "b", "c", "ab", "abc", "ca")] + [([" ", "b", "a", " "], 2), ([" ", " ", " "], 1)]
    for skip in list(range(len(seqs))) + [None]:
        ct = CoverageTransliterator(base.tokens, base.rules, base.whitespace, onmatch_rules=base.onmatch_rules, ignore_errors=True, check_ambiguity=False)
        ex = Exercised(model)
        done = []
        mon.current = {"skip": skip}
        for n, (toks, i) in enumerate(seqs):
            if n != skip:
                ct.match_at(i, toks)
                ex.attempt(toks, i)
                done.append((toks, i))
                verify(ct, ex, mon, done)
    for skip in (0, 1, 2, None):
        ct = CoverageTransliterator(base.tokens, base.rules, base.whitespace, onmatch_rules=base.onmatch_rules, ignore_errors=True, check_ambiguity=False)
        ex = Exercised(model)
        for toks, i in seqs:
            ct.match_at(i, toks, match_all=True)
            ex.attempt(toks, i, True)
        # "cc": on-match rule 1 is tried before 2; "bcb..." and so on
        for n, s in enumerate(("ab", "ba", " a")):
            if n != skip:
                done.append(s)
                ct.transliterate(s)
                ex.transliterate(s, False)
                verify(ct, ex, mon, done)


def probe_many(rng, mon):
    """Many rules and on-match rules; at the end one of them is missing."""
    n = 90
    names = [chr(0x4E00 + i) for i in range(n)]
    toks = {t: ["c%d" % i, "even" if i % 2 == 0 else "odd"] for i, t in enumerate(names)}
    toks[" "] = ["wb"]
    cfg = {"tokens": toks, "rules": [{"production": "p%d" % i, "tokens": [t]} for i, t in enumerate(names)] + [{"production": "_", "tokens": [" "]}],
           "onmatch_rules": [{"prev_classes": ["c%d" % (i - 1)], "next_classes": ["c%d" % i], "production": "+"} for i in range(1, n)],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    base = build(cfg)
    model = ref.Model(cfg)
    mon.current = {"cfg": "many"}
    for kind in ("rule", "onmatch", "nothing", "rule", "onmatch"):
        ct = CoverageTransliterator(base.tokens, base.rules, base.whitespace, onmatch_rules=base.onmatch_rules, ignore_errors=True, check_ambiguity=False)
        ex = Exercised(model)
        k = rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)]) if kind == "rule" else rng.choice([1, 2, n // 2, n - 1, rng.randrange(1, n)])
        texts = [" "] + [names[i] for i in range(n) if not (kind == "rule" and i == k)]
        texts += [names[i - 1] + names[i] for i in range(1, n) if not (kind == "rule" and k in (i, i - 1)) and not (kind == "onmatch" and i == k)]
        rng.shuffle(texts)
        for s in texts:
            ct.transliterate(s)
            ex.transliterate(s, False)
        done = [kind, k]
        verify(ct, ex, mon, done)
        s = names[k] if kind == "rule" else names[k - 1] + names[k]
        ct.transliterate(s)
        ex.transliterate(s, False)
        verify(ct, ex, mon, done)


PROBES = [probe_final_only, probe_many]
