"""C23: bundled transliterators agree from YAML and JSON and with their rules."""
import json
import os
import shutil
import sys

import yaml

from base import G, LOG, REPO, Violation, short
import easyparse
import gen
import ref
from util import (
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
    behaviour,
    build,
    in_ascii_locale,
    outcome,
    rule_set,
    same,
    same_behaviour,
    settings_of,
)

ID = "C23"


def T():
    import graphtransliterator.transliterators as transliterators

    return transliterators


def shipped():
    """Names of what is bundled in the repository: directories with a YAML file of their name."""
    d = os.path.join(REPO, "graphtransliterator", "transliterators")
    return sorted(n for n in os.listdir(d) if os.path.exists(os.path.join(d, n, n + ".yaml")))


_models = {}


def model_of(path):
    if path not in _models:
        with open(path, encoding="utf-8") as f:
            cfg = easyparse.config_of_yaml(f.read())
        _models[path] = (cfg, ref.Model(cfg), gen.members(cfg))
    return _models[path]


def demand(model, s, strict):
    """('ok', output) / ('error', name) as the YAML rules demand; None if a tie leaves it open."""
    toks, bad = model.tokenize(s)
    if bad and strict:
        return ("error", "UnrecognizableInputTokenException")
    r = model.run(s)
    if r["nomatch"] and strict:
        if r["ties"]:
            return None
        return ("error", "NoMatchingTransliterationRuleException")
    if r["ties"]:
        return None
    return ("ok", r["output"])


def compare(rng, mon, name, cfg, model, mem, ty, tj, texts):
    for s in texts:
        for strict in (True, False):
            LOG.take()
            for g in (ty, tj):
                g.ignore_errors = not strict
            a, b = outcome(ty.transliterate, s), outcome(tj.transliterate, s)
            if a != b:
                raise Violation("loaded from YAML and from JSON behave differently", transliterator=name, input=s, strict=strict, yaml=short(a), json=short(b))
            w = demand(model, s, strict)
            if w is None:
                mon.count("open")
                continue
            if a != w:
                raise Violation("not what the YAML rules demand", transliterator=name, input=s, strict=strict, got=short(a), want=short(w))
            mon.count("inputs")
            mon.count("errors" if a[0] == "error" else "outputs")
        mon.feature(name, tuple(len(t) for t in model.tokenize(s)[0]))
        a, b = outcome(ty.tokenize, s), outcome(tj.tokenize, s)
        if a != b:
            raise Violation("tokenization from YAML and from JSON differs", transliterator=name, input=s)
        toks = model.tokenize(s)[0]
        if toks[1:-1]:
            i = rng.randrange(1, len(toks) - 1)
            ra = sorted(ref.rule(ty.rules[k]) for k in ty.match_at(i, toks, match_all=True))
            rb = sorted(ref.rule(tj.rules[k]) for k in tj.match_at(i, toks, match_all=True))
            w = sorted(model.rules[k] for k in model.applicable(toks, i))
            if ra != w or rb != w:
                raise Violation("matches are not those of the YAML rules", transliterator=name, tokens=toks, position=i, yaml=short(ra), json=short(rb), want=short(w))
    sa, sb = settings_of(ty), settings_of(tj)
    for k in sa:
        if k != "ignore_errors":
            same("%s: %s from YAML and from JSON" % (name, k), sb[k], sa[k])
    same("%s: rules" % name, sorted(rule_set(ty)), sorted(model.rules))


_cls = {}


def case(rng, mon):
    if rng.random() < 0.3:
        return scratch_case(rng, mon)
    t = T()
    dirs = shipped()
    n = dirs[-1] if rng.random() < 0.75 else gen.pick(rng, dirs)
    if n not in _cls:
        found = []
        for name in t.iter_names():
            c = getattr(t, name)
            if c.__module__ == n:
                found.append(c)
        if len(found) != 1:
            raise Violation("a bundled transliterator is not listed once", module=n, found=[c.__name__ for c in found])
        c = found[0]
        _cls[n] = (c.new(method="yaml", check_ambiguity=False, coverage=rng.random() < 0.5), c.new(method="json", coverage=rng.random() < 0.3))
    ty, tj = _cls[n]
    path = os.path.join(REPO, "graphtransliterator", "transliterators", n, n + ".yaml")
    cfg, model, mem = model_of(path)
    texts = [gen.text(rng, cfg, mem=mem, errors=0.25, long=0.02) for _ in range(6)]
    mon.current = {"transliterator": n, "texts": texts}
    compare(rng, mon, n, cfg, model, mem, ty, tj, texts)
    mon.count("bundled")
    mon.sample({"transliterator": n, "texts": texts[:2]})


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(s)


_n = [0]


def scratch_case(rng, mon):
    """Packages of the documented layout in a scratch directory."""
    t = T()
    scratch = os.path.join(os.environ["VERIF_SCRATCH"], "bundles-%d" % mon.wid)
    _n[0] += 1
    top = os.path.join(scratch, "d%d" % _n[0])
    added = []
    before = list(t.iter_names())
    for q in range(rng.choice([1, 1, 2, 3])):
        for _ in range(40):
            kw = {} if rng.random() < 0.8 else {"styles": [("digits", 1)], "total": 1.0}
            cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0, maxtokens=8, onmatch=0.5, **kw))
            if cfg["rules"]:
                break
        easy = gen.easy_settings(cfg)
        ytext = yaml.safe_dump(easy, allow_unicode=rng.random() < 0.7, sort_keys=False)
        if yaml.safe_load(ytext) != easy or "\\N{" in ytext:
            continue
        pkg = "pkg_%d_%d_%d" % (mon.wid, _n[0], q)
        cls = "%sW%dN%dQ%d" % (rng.choice(["Scratch", "ScratchA", "scratch", "Bundled", "BundledX", "X_", "MetadataSchema", "Example", "\u00c9", "iter_names", "B", "zBundled"]), mon.wid, _n[0], q)
        src = G.from_yaml(ytext, check_ambiguity=False)
        src.ignore_errors = True
        tests = {}
        mem = gen.members(cfg)
        for _ in range(4):
            s = gen.text(rng, cfg, n=rng.randrange(1, 6), mem=mem)
            tests[s] = src.transliterate(s)
        src.ignore_errors = False
        ok = rng.random() < 0.75
        strict_ok = all(outcome(src.transliterate, s)[0] == "ok" for s in tests)
        if not ok and tests:
            k = gen.pick(rng, sorted(tests))
            was = tests[k]
            tests[k] = gen.pick(rng, [was + "x", was + " ", " " + was, was + "\n", was.swapcase(), was[:-1], was[1:], "", was * 2])
            ok = tests[k] == was
        def plain(s):
            """As one would write it: numbers without quotes."""
            return int(s) if s.isascii() and s.isdigit() and str(int(s)) == s else s

        written = {plain(k): plain(v) for k, v in tests.items()} if rng.random() < 0.5 else tests
        mon.count("tests_of_numbers", sum(1 for k in written if type(k) is int))
        ttext = yaml.safe_dump(written, allow_unicode=True)
        if {str(k): str(v) for k, v in yaml.safe_load(ttext).items()} != tests:
            tests, ttext, ok = {}, "{}\n", True
        method = rng.choice(["from_YAML", "from_JSON"])
        amb = ", check_ambiguity=False" if method == "from_YAML" else ""
        write(os.path.join(top, pkg, "__init__.py"),
              "from graphtransliterator.transliterators import Bundled\n\n\nclass %s(Bundled):\n    def __init__(self, **kwargs):\n        kwargs.setdefault('check_ambiguity', False)\n        self.%s(**kwargs)\n\n\nclass _Hidden%s(Bundled):\n    pass\n" % (cls, method, cls))
        write(os.path.join(top, pkg, pkg + ".yaml"), ytext)
        write(os.path.join(top, pkg, pkg + ".json"), src.dumps(rng.randrange(3)))
        write(os.path.join(top, pkg, "tests", pkg + "_tests.yaml"), ttext)
        added.append((cls, pkg, cfg, tests, ok, strict_ok))
    if not added:
        return
    write(os.path.join(top, "not_a_package.py"), "class NotBundled%d(object):\n    pass\n" % _n[0])
    mon.current = {"added": short(added, 3000)}
    try:
        t.add_transliterators(path=[top])
        names = list(t.iter_names())
        if sorted(names) != sorted(before + [a[0] for a in added]):
            raise Violation("names listed after adding are not those before and those added", added=[a[0] for a in added],
                            got=short(sorted(set(names) ^ set(before))), listed=len(names), before=len(before))
        for cls, pkg, cfg, tests, ok, strict_ok in added:
            c = getattr(t, cls)
            ty, tj = c.new(method="yaml", check_ambiguity=False), c.new(method="json")
            if ty.name != pkg or os.path.realpath(ty.directory) != os.path.realpath(os.path.join(top, pkg)):
                raise Violation("name or directory of an added transliterator is wrong", name=ty.name, directory=ty.directory)
            path = os.path.join(top, pkg, pkg + ".yaml")
            _, model, mem = model_of(path)
            model2 = ref.Model(cfg)
            if sorted(model.rules) != sorted(model2.rules) or model.onmatch != model2.onmatch:
                raise RuntimeError("the harness reads YAML differently from what it wrote: %s" % short(cfg))
            texts = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0) for _ in range(3)]
            mon.current["texts"] = texts
            compare(rng, mon, cls, cfg, model, mem, ty, tj, texts)
            got = c.new(method=rng.choice(["yaml", "json"]), check_ambiguity=False).load_yaml_tests()
            same("tests of an added transliterator", got, tests)
            inst = c()
            try:
                res = inst.run_yaml_tests()
                passed = True
            except (AssertionError, NoMatchingTransliterationRuleException, UnrecognizableInputTokenException):
                passed = False
            # equally specific rules may be tried in another order when loaded
            if not any(model.run(s)["ties"] for s in tests):
                if passed != (ok and strict_ok):
                    raise Violation("running the tests of a transliterator gives the wrong verdict", passed=passed, tests=short(tests), tampered=not ok)
                mon.count("tests_passed" if passed else "tests_failed")
            mon.count("added")
        # refused a second time, under whatever package, and the first is as before
        cls, pkg, cfg = gen.pick(rng, added)[:3]
        mem = gen.members(cfg)
        texts = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0) for _ in range(3)]

        def shows():
            out = []
            for m in ("yaml", "json"):
                for o in (getattr(t, cls).new(method=m, check_ambiguity=False), getattr(t, cls)()):
                    out.append((o.directory, settings_of(o), behaviour(o, texts), o.load_yaml_tests()))
            return out

        was = shows()
        for dpkg in ("dup_%d_%d" % (mon.wid, _n[0]), pkg):
            dup = os.path.join(scratch, "dup%d_%s" % (_n[0], dpkg))
            write(os.path.join(dup, dpkg, "__init__.py"), "from graphtransliterator.transliterators import Bundled\n\n\nclass %s(Bundled):\n    def __init__(self, **kwargs):\n        self.from_YAML(**kwargs)\n" % cls)
            other = "tokens: {q: [], ' ': [wb]}\nrules: {q: Q}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n"
            write(os.path.join(dup, dpkg, dpkg + ".yaml"), other)
            write(os.path.join(dup, dpkg, dpkg + ".json"), G.from_yaml(other).dumps())
            write(os.path.join(dup, dpkg, "tests", dpkg + "_tests.yaml"), "q: Q\n")
            old = getattr(t, cls)
            try:
                t.add_transliterators(path=[dup])
            except ValueError:
                mon.count("duplicates_refused")
            else:
                raise Violation("a second transliterator of the same name was not refused", name=cls, package=dpkg)
            if sorted(t.iter_names()) != sorted(names) or getattr(t, cls) is not old:
                raise Violation("a refused transliterator was listed or replaced the first", name=cls, package=dpkg)
            if dpkg != pkg:
                sys.modules.pop(dpkg, None)
            now = shows()
            if now != was:
                raise Violation("a refused transliterator changed the first", name=cls, package=dpkg, was=short(was), now=short(now))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def probe_shipped(rng, mon):
    """What is shipped is listed, passes its own tests, and is complete."""
    t = T()
    names = list(t.iter_names())
    if len(set(names)) != len(names):
        raise Violation("a bundled transliterator is listed twice", names=names)
    mods = sorted(getattr(t, n).__module__ for n in names)
    same("modules of the transliterators listed", mods, shipped())
    insts = list(t.iter_transliterators())
    same("transliterators iterated over", [type(i).__name__ for i in insts], names)
    for n in names:
        for method in ("yaml", "json"):
            g = getattr(t, n).new(method=method)
            if g.run_yaml_tests() is not True:
                raise Violation("tests did not run", name=n)
            mon.count("own_tests")
        path = os.path.join(g.directory, g.name + ".yaml")
        cfg, model, mem = model_of(path)
        with open(os.path.join(g.directory, "tests", g.name + "_tests.yaml"), encoding="utf-8") as f:
            tests = {str(k): str(v) for k, v in yaml.safe_load(f).items()}
        for s, want in tests.items():
            w = demand(model, s, True)
            if w is not None and w != ("ok", want):
                raise RuntimeError("the harness's model of %s disagrees with its tests on %r: %r, %r" % (n, s, w, want))
            mon.count("own_test_inputs")
        # every rule in context, alone
        ty, tj = getattr(t, n).new(method="yaml"), getattr(t, n).new(method="json")
        texts = ["".join(gen.instantiate(rng, r, mem)) for r in cfg["rules"]]
        compare(rng, mon, n, cfg, model, mem, ty, tj, texts)


def probe_locale(rng, mon):
    """The same in a process with an ASCII locale, shipped or added from a directory."""
    t = T()
    jobs, want = [], []
    top = os.path.join(os.environ["VERIF_SCRATCH"], "bundles-locale-%d" % mon.wid)
    y = "tokens: {a: [], \u0915: [x], ' ': [wb]}\nrules: {a: \u00e4\u0915, \u0915: \U0001d518}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n"
    write(os.path.join(top, "pkgloc", "__init__.py"), "from graphtransliterator.transliterators import Bundled\n\n\nclass InLocale(Bundled):\n    def __init__(self, **kwargs):\n        self.from_YAML(**kwargs)\n")
    write(os.path.join(top, "pkgloc", "pkgloc.yaml"), y)
    write(os.path.join(top, "pkgloc", "pkgloc.json"), json.dumps(G.from_yaml(y).dump(0), ensure_ascii=False))
    tests = {"a\u0915": "\u00e4\u0915\U0001d518"}
    write(os.path.join(top, "pkgloc", "tests", "pkgloc_tests.yaml"), yaml.safe_dump(tests, allow_unicode=True))
    for n in t.iter_names():
        if getattr(t, n).__module__ not in shipped():
            continue
        g = getattr(t, n).new(method="yaml")
        cfg, model, mem = model_of(os.path.join(g.directory, g.name + ".yaml"))
        texts = [gen.text(rng, cfg, mem=mem, errors=0.2, long=0) for _ in range(8)]
        g.ignore_errors = True
        jobs.append([n, texts])
        r = [g.transliterate(s) for s in texts]
        want.append(["ok", [g.load_yaml_tests()] * 2 + [True] * 2 + [r] * 2])
    jobs.append(["InLocale", ["a", "\u0915a"]])
    want.append(["ok", [tests] * 2 + [True] * 2 + [["\u00e4\u0915", "\U0001d518\u00e4\u0915"]] * 2])
    mon.current = {"probe": "locale"}
    try:
        out = in_ascii_locale(mon, {"bundled": jobs, "paths": [top]})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    if out is None:
        return
    for j, a, b in zip(jobs, out["bundled"], want):
        if a != b:
            raise Violation("a bundled transliterator is another in a process with an ASCII locale", transliterator=j[0], got=short(a), want=short(b))
        mon.count("bundled_in_other_locale")


PROBES = [probe_shipped, probe_locale]
