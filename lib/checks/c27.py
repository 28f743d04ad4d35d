"""C27: generated tests are correct and exercise every rule."""
import yaml

from base import G, LOG, Violation, short
import gen
import ref
from util import NoMatchingTransliterationRuleException, UnrecognizableInputTokenException, build, cfg_shape, outcome
from graphtransliterator.transliterators import Bundled
from checks import c23

ID = "C27"


def realises(s, slots):
    """Whether s is a concatenation of one token of each slot, in order."""
    at = {0}
    for slot in slots:
        at = {p + len(t) for p in at for t in slot if s.startswith(t, p)}
        if not at:
            return False
    return len(s) in at


def check(gt, model, cfg, mon, **d):
    LOG.take()
    try:
        text = Bundled.generate_yaml_tests(gt)
    except (UnrecognizableInputTokenException, NoMatchingTransliterationRuleException):
        if gt.ignore_errors:
            raise Violation("generation failed although errors are ignored", **d)
        mon.count("cannot_be_generated")
        # that must be because some input the rules lead to fails
        mem = gen.members(cfg)
        return
    tests = yaml.safe_load(text)
    if not isinstance(tests, dict):
        raise Violation("generated tests are not a mapping", text=short(text), **d)
    for s, out in tests.items():
        if type(s) is not str or type(out) is not str:
            raise Violation("a generated test is not a mapping of strings", test=(s, out), **d)
        got = outcome(gt.transliterate, s)
        if got != ("ok", out):
            raise Violation("a generated test is not what the transliterator gives", input=s, test=out, got=short(got), **d)
        w = c23.demand(model, s, not gt.ignore_errors)
        if w is not None and w != ("ok", out):
            raise Violation("a generated test is not what the rules demand", input=s, test=out, want=short(w), **d)
        mon.count("tests")
    by = ref.by_class_of(model.tokens)
    for r in model.rules:
        slots = [by[c] for c in r.pc] + [[t] for t in r.pt + r.t + r.nt] + [by[c] for c in r.nc]
        if not any(realises(s, slots) for s in tests):
            raise Violation("no generated input satisfies a rule and its context", rule=r, inputs=short(list(tests), 1500), **d)
        mon.count("rules")
        if r.pc or r.nc:
            mon.count("rules_with_classes")
        mon.feature(tuple(map(len, r[1:])))
    for o in model.onmatch:
        slots = [by[c] for c in o[0] + o[1]]
        if not any(realises(s, slots) for s in tests):
            raise Violation("no generated input satisfies an on-match rule", rule=o, inputs=short(list(tests), 1500), **d)
        mon.count("onmatch_rules")
        mon.feature("onmatch", len(o[0]), len(o[1]))
    mon.count("generated")


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.02, maxrules=14, onmatch=0.6, dup=0.05, total=0.9, longrule=0.06, metadata=0.1, context=0.35))
    if rng.random() < 0.5:
        # make sure nothing fails: a rule for every token
        have = {tuple(r["tokens"]) for r in cfg["rules"] if len(r) == 2}
        cfg["rules"] += [{"tokens": [t], "production": "T%d" % n} for n, t in enumerate(cfg["tokens"]) if (t,) not in have]
    ign = rng.random() < 0.5
    mon.current = {"cfg": cfg, "ignore_errors": ign}
    gt = build(cfg, ignore_errors=ign)
    model = ref.Model(cfg)
    check(gt, model, cfg, mon, made="from_dict")
    if rng.random() < 0.3:
        check(G.loads(gt.dumps(rng.randrange(3))), model, cfg, mon, made="loaded")
        mon.count("loaded")
    mon.sample({"rules": short(model.rules, 200)})


def probe_bundled(rng, mon):
    import os

    t = c23.T()
    for n in t.iter_names():
        for method in ("yaml", "json"):
            g = getattr(t, n).new(method=method)
            cfg, model, _ = c23.model_of(os.path.join(g.directory, g.name + ".yaml"))
            mon.current = {"bundled": n, "method": method}
            check(g, model, cfg, mon, made=n)
            if yaml.safe_load(g.generate_yaml_tests()) != yaml.safe_load(Bundled.generate_yaml_tests(g)):
                raise Violation("generated tests differ from one call to the next", name=n)
            mon.count("bundled")


PROBES = [probe_bundled]
