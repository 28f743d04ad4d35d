"""C37: testing a bundled transliterator judges every expectation, and metadata is judged by its schema."""
import collections
import os
import shutil

import yaml

from base import G, LOG, Violation, short
import gen
import ref
from util import AmbiguousTransliterationRulesException, IncompleteGraphCoverageException, IncompleteOnMatchRulesCoverageException, ValidationError, behaviour, outcome, same, settings_of
from util import NoMatchingTransliterationRuleException, UnrecognizableInputTokenException
from graphtransliterator.transliterators import Bundled, MetadataSchema

ID = "C37"
ERRORS = (NoMatchingTransliterationRuleException, UnrecognizableInputTokenException)
COVERAGE = (IncompleteGraphCoverageException, IncompleteOnMatchRulesCoverageException)


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(s)


def coverage(gt):
    """What the check says: whether it is complete, and the error."""
    LOG.take()
    ok = gt.check_coverage(raise_exception=False)
    try:
        gt.check_coverage()
        e = None
    except COVERAGE as err:
        e = (type(err).__name__, str(err))
    LOG.take()
    if (e is None) is not (ok is True):
        raise Violation("coverage is judged differently with and without raising", ok=ok, error=e)
    return ok, e


def near(rng, s):
    """A text that looks like it."""
    return gen.pick(rng, [s + "x", s + " ", " " + s, s + "\n", s.swapcase(), s[:-1], s[1:], "", s * 2, s[::-1], s + "\u200b", s.strip(), "None", s + "0"])


def case(rng, mon):
    if rng.random() < 0.3:
        return metadata_case(rng, mon)
    kw = {} if rng.random() < 0.7 else {"styles": [("digits", 1)]}
    cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0, maxtokens=8, onmatch=0.5, total=0.8, **kw))
    if not cfg["rules"]:
        return
    easy = gen.easy_settings(cfg)
    ytext = yaml.safe_dump(easy, allow_unicode=True, sort_keys=False)
    if yaml.safe_load(ytext) != easy or "\\N{" in ytext:
        return
    src = G.from_yaml(ytext, check_ambiguity=False)
    mem = gen.members(cfg)
    d = os.path.join(os.environ["VERIF_SCRATCH"], "c37-%d" % mon.wid)
    try:
        write(os.path.join(d, "judged.yaml"), ytext)
        write(os.path.join(d, "judged.json"), src.dumps(rng.randrange(3)))

        class Judged(Bundled):
            directory = d
            name = "judged"

        def new():
            m = rng.choice(["yaml", "json"])
            return Judged.new(method=m, check_ambiguity=False, coverage=True)

        for _ in range(4):
            judge(rng, mon, cfg, mem, src, new, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(rng, mon, cfg, mem, src, new, d):
    g, plain = new(), new()
    lenient = rng.random() < 0.5
    g.ignore_errors = plain.ignore_errors = lenient
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 30])
    if rng.random() < 0.03:
        n = rng.choice([150, 400, 900])
        mon.count("many_tests")
    right = collections.OrderedDict()
    for _ in range(n):
        s = gen.text(rng, cfg, n=rng.randrange(0, 6 if n < 99 else 14), mem=mem, errors=0.03 if not lenient else 0.2)
        right[s] = outcome(plain.transliterate, s)
    if rng.random() < 0.4:
        for r in plain.rules:
            s = "".join(gen.instantiate(rng, {k: v for k, v in r._asdict().items() if v is not None}, mem))
            right[s] = outcome(plain.transliterate, s)
    items = list(right.items())
    rng.shuffle(items)
    tests, wrong, failing = {}, {}, []
    amount = rng.choice([0, 0, 1, 1, 2, len(items)])
    spoil = {s for s, _ in rng.sample(items, min(amount, len(items)))}
    if rng.random() < 0.3 and items and amount == 1:
        spoil = {items[rng.choice([0, -1])][0]}
    for s, (kind, out) in items:
        if kind != "ok":
            failing.append(s)
            tests[s] = near(rng, s)
            continue
        tests[s] = out
        if s in spoil:
            t = near(rng, out)
            if t != out:
                tests[s] = t
                wrong[s] = (out, t)
    mon.current = {"cfg": cfg, "tests": short(tests, 3000), "wrong": short(wrong), "failing": failing, "lenient": lenient}
    given = dict(tests)
    route = rng.choice(["mapping", "file", "file", "ordered"])
    kept = dict(settings_of(g))
    if route == "file":
        written = {(int(k) if k.isascii() and k.isdigit() and str(int(k)) == k and rng.random() < 0.7 else k): (int(v) if v.isascii() and v.isdigit() and str(int(v)) == v and rng.random() < 0.7 else v) for k, v in tests.items()}
        text = yaml.safe_dump(written, allow_unicode=True, sort_keys=False)
        if {str(k): str(v) for k, v in yaml.safe_load(text).items()} != tests or not tests:
            route = "mapping"
        else:
            write(os.path.join(d, "tests", "judged_tests.yaml"), text)
            same("tests read", g.load_yaml_tests(), tests)
            same("order of the tests read", list(g.load_yaml_tests()), list(tests))
            mon.count("files")
    run = g.run_yaml_tests if route == "file" else lambda: g.run_tests(collections.OrderedDict(tests) if route == "ordered" else tests)
    bad = bool(wrong or failing)
    for turn in range(rng.choice([1, 2])):
        try:
            got = run()
        except AssertionError as e:
            if not wrong:
                raise Violation("tests fail though every expectation is met", message=short(str(e), 500), route=route)
            if not any(s in str(e) and a in str(e) and b in str(e) for s, (a, b) in wrong.items()):
                raise Violation("the message names no wrong expectation with what was got and expected", message=short(str(e), 500), route=route)
            mon.count("failed")
        except ERRORS as e:
            if not failing:
                raise Violation("tests end with an error though every input can be transliterated", error=short(e), route=route)
            mon.count("errors")
        else:
            if bad:
                raise Violation("tests pass though an expectation is not met", wrong=short(wrong), failing=failing, route=route, turn=turn)
            if route == "file" and got is not True:
                raise Violation("tests passed and were not reported so", got=got)
            mon.count("passed")
    LOG.take()
    same("the tests given", list(tests.items()), list(given.items()))
    if not bad:
        same("coverage after the tests", coverage(g), coverage(plain))
        mon.count("coverage_complete" if coverage(g)[0] else "coverage_incomplete")
    same("settings after the tests", settings_of(g), kept)
    mon.count("judged")
    mon.feature(route, lenient, min(len(tests), 9), min(len(wrong), 3), min(len(failing), 3), tuple(list(tests)[:2]))


WORDS = ["a", "name", "\u0915 x", "", "1.0", " ", "A. B.", "x" * 300, "{}", "%s"]
GOOD = {
    "name": WORDS, "description": WORDS, "version": WORDS, "author": WORDS, "maintainer": WORDS, "license": WORDS,
    "url": ["https://example.org", "http://example.com/x?y=1#z", "https://github.com/seanpue/graphtransliterator/tree/master/x"],
    "author_email": ["a@example.org", "a.b+c@example.co.uk"], "maintainer_email": ["x@example.com"],
    "keywords": [[], ["a"], ["a", "b", "\u0915"]],
    "project_urls": [{}, {"a": "https://example.org"}, {"a": "https://example.org", "b": "http://example.com/b"}],
}
NOT_TEXT = [None, 5, 1.5, True, [], ["a"], {"a": "b"}]
BAD = {
    "name": NOT_TEXT, "description": NOT_TEXT, "version": NOT_TEXT, "author": NOT_TEXT, "maintainer": NOT_TEXT, "license": NOT_TEXT,
    "url": NOT_TEXT + ["a", "example", "://example.org", "https://", "nothing at all", ""],
    "author_email": NOT_TEXT + ["a", "@", "a@", "@example.org", "a b@example.org", "a at example.org", ""],
    "maintainer_email": NOT_TEXT + ["a", "@", "a@", "@example.org", ""],
    "keywords": [None, "a", "a b", 5, {"a": "b"}, [5], ["a", None], ["a", "b", ["c"]], [{}], True],
    "project_urls": [None, "https://example.org", ["https://example.org"], {"a": "x"}, {"a": "https://example.org", "b": "x"}, {"a": None}, {"a": 5}, {5: "https://example.org"}, True],
}
REQUIRED = ("name", "description", "version")


def metadata_case(rng, mon):
    for _ in range(20):
        names = [k for k in GOOD if k in REQUIRED or rng.random() < 0.5]
        rng.shuffle(names)
        m = {k: gen.pick(rng, GOOD[k]) for k in names}
        mon.current = {"metadata": m}
        schema = MetadataSchema()
        try:
            got = schema.load(m)
        except ValidationError as e:
            raise Violation("valid metadata is refused", metadata=m, error=short(e))
        same("metadata loaded", dict(got), m)
        same("metadata dumped", dict(schema.dump(got)), m)
        mon.count("metadata_accepted")
        x = rng.random()
        b = dict(m)
        if x < 0.2:
            del b[gen.pick(rng, REQUIRED)]
        elif x < 0.35:
            b[gen.pick(rng, ["zz", "Name", "email", "authors", "keyword", ""])] = "a"
        else:
            k = gen.pick(rng, sorted(BAD))
            b[k] = gen.pick(rng, BAD[k])
        try:
            schema.load(b)
        except ValidationError:
            mon.count("metadata_refused")
        else:
            raise Violation("invalid metadata is accepted", metadata=b)
        mon.feature("metadata", tuple(sorted(names)), short(b, 60))


def probe_shipped(rng, mon):
    """Metadata of what is shipped."""
    import graphtransliterator.transliterators as t

    for i in t.iter_transliterators():
        try:
            MetadataSchema().load(i.metadata)
        except ValidationError as e:
            raise Violation("metadata of a bundled transliterator is not valid", name=type(i).__name__, error=short(e))
        mon.count("shipped")


PROBES = [probe_shipped]
