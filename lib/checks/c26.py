"""C26: the caller's data is not modified and results are independent."""
import copy
import json
import os

import yaml

from base import G, LOG, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, outcome, same, same_behaviour, cfg_shape, ValidationError
from graphtransliterator import CoverageTransliterator, DirectedGraph

ID = "C26"
CASE_S = 60.0


def snap(x):
    """A value that changes when the data or its types do."""
    if isinstance(x, dict):
        return (type(x).__name__, [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return (type(x).__name__, repr(x))


def full(gt, inputs, seqs):
    ign = gt.ignore_errors
    out = [settings_of(gt), graph_of(gt), behaviour(gt, inputs, seqs)]
    gt.ignore_errors = not ign
    out.append(behaviour(gt, inputs))
    gt.ignore_errors = ign
    ds = [json.loads(gt.dumps(k)) for k in range(3)]
    for d in ds:
        for k in ("metadata", "onmatch_rules"):
            if not d.get(k):
                d.pop(k, None)  # none and empty are the same
        if d.get("compressed_settings"):
            d["compressed_settings"] = [x or None for x in d["compressed_settings"]]
    out.append([json.dumps(d, sort_keys=True) for d in ds])
    return out


class Guard:
    """Arguments handed over, each with a snapshot of what it was."""

    def __init__(self, mon):
        self.held = []
        self.mon = mon

    def give(self, name, obj):
        self.held.append((name, obj, snap(obj)))
        return obj

    def check(self, after):
        for name, obj, was in self.held:
            if snap(obj) != was:
                raise Violation("an argument was modified", argument=name, operation=after, before=short(was), after=short(snap(obj)))
            self.mon.count("arguments_checked")


def makers_opt(rng, settings, o):
    made = G.from_dict(settings, check_ambiguity=False, **o)
    if bool(made.ignore_errors) != o["ignore_errors"]:
        raise Violation("an option of construction has no effect", options=o)


def case(rng, mon):
    easy_wanted = rng.random() < 0.4
    cfg = gen.config(rng, gen.Opts(easy=easy_wanted, big=0.01, maxrules=10, min_rules=1, onmatch=0.6, metadata=0.7))
    mon.current = {"cfg": cfg}
    guard = Guard(mon)
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, n=rng.randrange(0, 9), mem=mem, errors=0.3) for _ in range(3)]
    seqs = [gen.framed_seq(rng, cfg, 4, mem)]
    ign = rng.random() < 0.4
    ops = []
    mon.current["ops"] = ops
    settings = gen.direct(cfg)
    if rng.random() < 0.4:
        # parts that are null, as in dumps of rules
        for r in settings["rules"]:
            for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes"):
                if k not in r and rng.random() < 0.5:
                    r[k] = None
        mon.count("nulls")
    settings = guard.give("settings", settings)
    makers = [("from_dict", lambda: G.from_dict(settings, check_ambiguity=False, ignore_errors=ign))]
    if easy_wanted and cfg["rules"]:
        easy = guard.give("easy settings", gen.easy_settings(cfg))
        makers.append(("easy", lambda: G.from_easyreading_dict(easy, check_ambiguity=False, ignore_errors=ign)))
    first = makers[0][1]()
    loadable = []
    for lvl in range(3):
        d = guard.give("dump %d" % lvl, first.dump(lvl))
        j = first.dumps(lvl)
        loadable.append(d)
        makers.append(("load%d" % lvl, lambda d=d: G.load(d)))
        makers.append(("loads%d" % lvl, lambda j=j: G.loads(j)))
        if rng.random() < 0.4:
            pj = guard.give("parsed dump %d" % lvl, json.loads(j))
            loadable.append(pj)
            makers.append(("loadp%d" % lvl, lambda pj=pj: G.load(pj)))
    guard.check("dumping")
    want = full(first, inputs, seqs)
    live = [("first", first)]
    # the constructor, given the parts
    parts = {"tokens": copy.deepcopy(first.tokens), "rules": copy.deepcopy(first.rules), "whitespace": copy.deepcopy(first.whitespace),
             "onmatch_rules": copy.deepcopy(first.onmatch_rules), "metadata": copy.deepcopy(first.metadata)}
    for k, v in parts.items():
        guard.give("constructor's " + k, v)
    extra = {}
    if rng.random() < 0.5:
        extra["tokens_by_class"] = guard.give("constructor's tokens_by_class", copy.deepcopy(first.tokens_by_class))
    if rng.random() < 0.5 and parts["onmatch_rules"]:
        extra["onmatch_rules_lookup"] = guard.give("constructor's onmatch_rules_lookup", copy.deepcopy(first.onmatch_rules_lookup))
    if rng.random() < 0.5:
        extra["tokenizer_pattern"] = first.tokenizer_pattern
    if rng.random() < 0.5:
        extra["graph"] = DirectedGraph(guard.give("node list", copy.deepcopy(first.graph.node)), guard.give("edge dict", copy.deepcopy(first.graph.edge)),
                                       guard.give("edge list", copy.deepcopy(first.graph.edge_list)))
    makers.append(("constructor", lambda: G(parts["tokens"], parts["rules"], parts["whitespace"], onmatch_rules=parts["onmatch_rules"], metadata=parts["metadata"],
                                            ignore_errors=ign, check_ambiguity=False, **extra)))
    # several from the same data, interleaved with operations on all of them
    states = {}

    def expect(name, gt, w):
        got = full(gt, inputs, seqs)
        for part, g, x in zip(("settings", "graph", "behaviour", "behaviour in the other error mode", "dumps"), got, w):
            if g != x:
                for a, b in (zip(g, x) if isinstance(g, list) else ((g[k], x[k]) for k in g)):
                    if a != b:
                        raise Violation("%s: %s affected by operations on others" % (name, part), got=short(a), want=short(b), ops=short(ops, 2500))
                raise Violation("%s: %s affected by operations on others" % (name, part), ops=short(ops, 2500))
        mon.count("siblings_checked")

    pruned_key = rng.choice(cfg["rules"])["production"] if cfg["rules"] else "A"
    wants = {"first": want}
    steps = rng.randrange(4, 9)
    if len(cfg["tokens"]) > 100:
        steps = 2
    for step in range(steps):
        k = rng.randrange(11)
        name, gt = gen.pick(rng, live)
        if k < 3:
            n, make = gen.pick(rng, makers)
            new = make()
            nm = "%s#%d" % (n, step)
            ops.append(("make", nm))
            wants[nm] = full(new, inputs, seqs)
            for part, a, b in zip(("settings", "graph", "behaviour", "behaviour (other mode)", "dumps"), wants[nm], want):
                if a != b:
                    raise Violation("reusing the same data gives a different transliterator (%s)" % part, made=nm, got=short(a), want=short(b), ops=short(ops, 2500))
            live.append((nm, new))
            mon.count("remade")
        elif k == 3:
            ps = guard.give("productions", rng.choice([[pruned_key, "absent"], [pruned_key, "absent"], ["absent"], []]))
            nm = "%s.pruned#%d" % (name, step)
            ops.append(nm)
            new = gt.pruned_of(ps)
            wants[nm] = full(new, inputs, seqs)
            live.append((nm, new))
            mon.count("pruned")
        elif k == 4:
            ops.append((name, "toggle twice"))
            gt.ignore_errors = not gt.ignore_errors
            for nm, o in live:
                if nm != name and bool(o.ignore_errors) != wants[nm][0]["ignore_errors"]:
                    raise Violation("switching the error mode of one switched another", switched=name, other=nm, ops=short(ops))
            gt.ignore_errors = not gt.ignore_errors
            mon.count("toggles")
        elif k == 5:
            ops.append((name, "transliterate"))
            for s in inputs:
                outcome(gt.transliterate, s)
                outcome(gt.tokenize, s)
        elif k == 6:
            toks = guard.give("tokens", list(seqs[0]))
            ops.append((name, "match_at"))
            for i in range(len(toks)):
                gt.match_at(i, toks)
                gt.match_at(i, toks, match_all=True)
        elif k == 7:
            # what is returned is the caller's; changing it changes nothing else
            ops.append((name, "use results"))
            d = gt.dump(rng.randrange(3))
            for key in ("graph", "onmatch_rules_lookup", "tokens_by_class", "rules"):
                d.pop(key, None)  # as when compacting it
            t = outcome(gt.tokenize, inputs[0])
            if t[0] == "ok":
                t[1].reverse()
                t[1].append("x")
            m = gt.match_at(1, seqs[0], match_all=True)
            m.append(-1)
            r = gt.productions
            r.append("x")
            try:
                gt.transliterate(inputs[0])
                gt.last_matched_rules.append(None)
                x = gt.last_matched_rule_tokens
                x.append(None)
            except Exception:
                LOG.take()
            mon.count("results_scribbled")
        elif k == 8:
            ops.append((name, "coverage"))
            ct = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, metadata=gt.metadata,
                                        ignore_errors=gt.ignore_errors, check_ambiguity=False, graph=gt.graph if rng.random() < 0.5 else None)
            behaviour(ct, inputs, seqs)
            ct.check_coverage(raise_exception=False)
            ct.clear_visited()
            mon.count("coverage")
        elif k == 9:
            nm = "load with options#%d" % step
            ops.append(nm)
            opts = {"ignore_errors": rng.random() < 0.5}
            if rng.random() < 0.5:
                opts["check_ambiguity"] = False
            guard.give("options", opts)
            new = G.load(gen.pick(rng, loadable), **opts)
            if bool(new.ignore_errors) != opts["ignore_errors"]:
                raise Violation("an option of loading has no effect", options=opts, ops=short(ops, 2500))
            wants[nm] = full(new, inputs, seqs)
            live.append((nm, new))
            for o in ({"ignore_errors": True}, {"ignore_errors": False}):
                makers_opt(rng, settings, o)
            mon.count("loaded_with_options")
        else:
            ops.append((name, "dump"))
            gt.dump(rng.randrange(3))
            gt.dumps(rng.randrange(3))
        guard.check(ops[-1])
        if rng.random() < 0.4:
            nm, o = gen.pick(rng, live)
            expect(nm, o, wants[nm])
    for nm, o in live:
        expect(nm, o, wants[nm])
    guard.check("everything")
    mon.count("configs")
    mon.feature(cfg_shape(cfg), tuple(o if isinstance(o, str) else o[-1].split("#")[0] for o in ops))
    mon.sample({"ops": short(ops, 300)})


def probe_faulty_settings(rng, mon):
    """Refused settings are not modified either."""
    cfg = {"tokens": {"a": ["x"], " ": ["wb"]}, "rules": [{"production": "A", "tokens": ["a"], "prev_classes": ["nope"]}],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": True}, "metadata": {"k": [1, {"z": None}]}}
    was = snap(cfg)
    for _ in range(2):
        try:
            G.from_dict(cfg)
        except ValidationError:
            pass
        if snap(cfg) != was:
            raise Violation("refused settings were modified", got=short(cfg))
    good = copy.deepcopy(cfg)
    good["rules"][0]["prev_classes"] = ["x"]
    a = G.from_dict(good)
    d = a.dump(0)
    del d["tokens"]
    s = snap(d)
    try:
        G.load(d)
    except ValidationError:
        pass
    if snap(d) != s:
        raise Violation("refused serialized settings were modified")


PROBES = [probe_faulty_settings]
