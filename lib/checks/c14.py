"""C14: options take effect on every route."""
import json
import os

import yaml

from base import G, LOG, Violation, short
import gen
import ref
from util import AmbiguousTransliterationRulesException, build, outcome
from checks import c10
from graphtransliterator.exceptions import GraphTransliteratorException

ID = "C14"


def write(path, s):
    with open(path, "w", encoding="utf-8") as f:
        f.write(s)


_bundle = {}


def bundled_class(easy, js, scratch):
    """A bundled transliterator class over a scratch directory."""
    from graphtransliterator.transliterators import Bundled

    d = os.path.join(scratch, "bundle14")
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, "scratch14.yaml"), easy)
    write(os.path.join(d, "scratch14.json"), js)

    class Scratch14(Bundled):
        directory = d
        name = "scratch14"

    return Scratch14


def case(rng, mon):
    amb_wanted = rng.random() < 0.5
    for _ in range(30):
        cfg = gen.config(rng, gen.Opts(easy=True, maxtokens=4, min_rules=2, maxrules=7, big=0, metadata=0.3, onmatch=0.3, dup=0.0, context=0.5,
                                       styles=[("ascii", 4), ("uni", 1), ("words", 1)]))
        if not amb_wanted:
            cfg = c10.repair(rng, cfg)
        cfg["rules"] = gen.easy_filter(cfg["rules"])
        if not cfg["rules"]:
            continue
        amb = bool(ref.ambiguous_pairs([ref.rule(r) for r in cfg["rules"]], {k: frozenset(v) for k, v in cfg["tokens"].items()}))
        if amb == amb_wanted:
            break
    if not cfg["rules"]:
        return
    mon.current = {"cfg": cfg, "ambiguous": amb}
    scratch = os.environ["VERIF_SCRATCH"]
    easy = gen.easy_settings(cfg)
    ytext = yaml.safe_dump(easy, allow_unicode=True, sort_keys=False)
    yfile = os.path.join(scratch, "c14-%d.yaml" % mon.wid)
    write(yfile, ytext)
    dumped_ign = rng.random() < 0.4
    src = build(cfg, ignore_errors=dumped_ign)
    routes = [
        ("from_dict", True, lambda **k: G.from_dict(gen.direct(cfg), **k)),
        ("from_easyreading_dict", True, lambda **k: G.from_easyreading_dict(gen.easy_settings(cfg), **k)),
        ("from_yaml", True, lambda **k: G.from_yaml(ytext, **k)),
        ("from_yaml_file", True, lambda **k: G.from_yaml_file(yfile, **k)),
    ]
    if "\\N{" not in ytext:
        routes.append(("from_yaml_plain", True, lambda **k: G.from_yaml(ytext, charnames_escaped=False, **k)))
        routes.append(("from_yaml_file_plain", True, lambda **k: G.from_yaml_file(yfile, charnames_escaped=False, **k)))
    for lvl in range(3):
        routes.append(("load%d" % lvl, False, lambda lvl=lvl, **k: G.load(src.dump(lvl), **k)))
        routes.append(("loads%d" % lvl, False, lambda lvl=lvl, **k: G.loads(src.dumps(lvl), **k)))
    B = bundled_class(ytext, src.dumps(rng.randrange(3)), os.path.join(scratch, "w%d" % mon.wid))
    routes.append(("bundled_yaml", True, lambda **k: B.new(method="yaml", **k)))
    routes.append(("bundled_json", False, lambda **k: B.new(method="json", **k)))

    def made(method, **k):
        b = B.__new__(B)
        getattr(b, method)(**k)
        return b

    routes.append(("bundled_yaml_direct", True, lambda **k: made("from_YAML", **k)))
    routes.append(("bundled_json_direct", False, lambda **k: made("from_JSON", **k)))
    # an input that errors, if any, and the results by mode
    mem = gen.members(cfg)
    texts = [gen.text(rng, cfg, mem=mem, errors=0.8, long=0) for _ in range(6)] + ["\u2603"]
    exp = {m: [outcome(build(cfg, ignore_errors=m).transliterate, s) for s in texts] for m in (False, True)}
    for name, checks_by_default, make in routes:
        for ign in (None, True, False):
            for ca in (None, True, False):
                if rng.random() < 0.45:
                    continue
                kw = {}
                if ign is not None:
                    kw["ignore_errors"] = ign
                if ca is not None:
                    kw["check_ambiguity"] = ca
                cov = rng.choice([None, True, False]) if name.startswith("bundled") else None
                if cov is not None:
                    kw["coverage"] = cov
                mon.current["route"] = (name, kw)
                try:
                    gt = make(**kw)
                    refused = False
                except AmbiguousTransliterationRulesException:
                    refused = True
                check = checks_by_default if ca is None else ca
                want_refused = amb and check
                mon.count("constructions")
                mon.feature(name, ign, ca, amb, dumped_ign)
                if refused != want_refused:
                    raise Violation("ambiguity option has no or the wrong effect", route=name, options=kw, ambiguous=amb, refused=refused)
                if refused:
                    mon.count("refused")
                    continue
                serialized = name.startswith(("load", "bundled_json"))
                want_ign = ign if ign is not None else (dumped_ign if serialized else False)
                if bool(gt.ignore_errors) != want_ign:
                    raise Violation("error option has no or the wrong effect", route=name, options=kw, dumped=dumped_ign, got=gt.ignore_errors)
                if name.startswith("bundled"):
                    cov = name.startswith("bundled_yaml") if cov is None else cov
                    if hasattr(gt.graph, "check_coverage") != cov:
                        raise Violation("coverage option has no or the wrong effect", route=name, options=kw, graph=type(gt.graph).__name__)
                    mon.count("coverage_on" if cov else "coverage_off")
                k = rng.randrange(len(texts))
                for j in (k, len(texts) - 1):
                    got = outcome(gt.transliterate, texts[j])
                    if got != exp[want_ign][j]:
                        raise Violation("behaviour is not that of the requested error mode", route=name, options=kw, input=texts[j],
                                        got=short(got), want=short(exp[want_ign][j]))
                if want_ign:
                    mon.count("lenient")
                else:
                    mon.count("strict")
                # keyword options are not settings of the next dump's ambiguity checking
                p = rng.random()
                if p < 0.2:
                    g2 = G.loads(gt.dumps(rng.randrange(3)))
                    if bool(g2.ignore_errors) != want_ign:
                        raise Violation("error mode was not kept by a dump", route=name, options=kw, got=g2.ignore_errors)
    mon.count("configs_ambiguous" if amb else "configs_unambiguous")
    mon.sample({"rules": short(easy["rules"], 300), "ambiguous": amb})


def probe_iterated(rng, mon):
    """Options given for all bundled transliterators have their effect on each."""
    from graphtransliterator import transliterators

    names = list(transliterators.iter_names())
    for kw, lenient in (({}, False), ({"ignore_errors": True}, True), ({"ignore_errors": False, "coverage": False}, False),
                        ({"ignore_errors": True, "check_ambiguity": False, "coverage": False}, True), ({"check_ambiguity": True}, False)):
        for name, gt in zip(names, transliterators.iter_transliterators(**kw)):
            mon.current = {"iterated": name, "options": kw}
            made = [("iterated", gt), ("by class", getattr(transliterators, name)(**kw))]
            made += [("new " + m, getattr(transliterators, name).new(method=m, **kw)) for m in ("yaml", "json")]
            for how, t in made:
                if type(t).__name__ != name:
                    raise Violation("not the transliterators in order of their names", name=name, got=type(t).__name__)
                try:
                    got = t.transliterate("☃")
                except GraphTransliteratorException as e:
                    got = type(e).__name__
                if got != ("" if lenient else "UnrecognizableInputTokenException"):
                    raise Violation("error option has no or the wrong effect", route=how, name=name, options=kw, got=got)
                mon.count("bundled_constructions")


PROBES = [probe_iterated]
