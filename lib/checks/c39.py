"""C39: a call that is cut short leaves everything as it was.

An exception from outside (an interrupt, lack of memory) is raised before a chosen source line of
the library while a call is under way: before every line in turn for short calls, before lines
picked at random for long ones. Then what the transliterator it was called on, its dumps, its
results, new transliterators and the arguments given are is compared with what they were.

No exception is raised where code that cleans up runs (finally, except, __exit__), or at the
line that enters such a block: no code could be safe there."""
import ast
import copy
import os
import random
import sys

from base import G, LOG, PKG, Violation, gtlib, short
import gen
import ref
from util import behaviour, build, cfg_shape, graph_of, outcome, same, same_behaviour, settings_of
from checks import c32, c38
from checks.c30 import accepted, plain
from graphtransliterator import CoverageTransliterator
import graphtransliterator.transliterators as T

ID = "C39"
CASE_S = 90.0


class Cut(BaseException):
    """Nothing the library could know of."""


KINDS = [Cut, Cut, KeyboardInterrupt, MemoryError, SystemExit]
_spared = {}


def spared(path):
    """Lines at which a call is not cut short."""
    if path not in _spared:
        lines = set()
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, UnicodeDecodeError):
            tree = None

        def span(nodes):
            for n in nodes:
                lines.update(range(n.lineno, n.end_lineno + 1))

        for n in ast.walk(tree) if tree is not None else ():
            if isinstance(n, ast.Try):
                lines.add(n.lineno)
                span(n.finalbody)
                span(n.handlers)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                lines.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name in ("__exit__", "__aexit__", "__del__", "close") or any("contextmanager" in ast.dump(d) for d in n.decorator_list):
                    span([n])
        _spared[path] = lines
    return _spared[path]


class Cutter:
    """Runs a function, raising before the at-th line of the library; counts them otherwise."""

    def __init__(self, at=None, exc=Cut):
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def local(self, frame, event, arg):
        if event == "line" and self.where is None:
            path = frame.f_code.co_filename
            if frame.f_lineno not in spared(path):
                self.n += 1
                if self.n == self.at:
                    self.where = "%s:%d" % (os.path.basename(path), frame.f_lineno)
                    raise self.exc()
        return self.local

    def glob(self, frame, event, arg):
        if self.where is None and frame.f_code.co_filename.startswith(PKG) and frame.f_code.co_name != "<module>":
            return self.local
        return None

    def run(self, func):
        """(whether it was cut short, whether that reached us)"""
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            func()
        except self.exc:
            return self.where is not None, True
        except Exception:
            pass
        finally:
            sys.settrace(old)
        return self.where is not None, False


# ------------------------------------------------------------------ calls


def calls(rng, cfg, mem, js, easy, yaml):
    """(name, what is done with a transliterator, arguments given) """
    text = gen.text(rng, cfg, mem=mem, errors=0.4, long=0.0)[:30]
    lvl = rng.randrange(3)
    toks = gen.framed_seq(rng, cfg, 4, mem)
    i = rng.randrange(1, len(toks))
    d = gen.direct(cfg)
    prods = rng.sample([r["production"] for r in cfg["rules"]], len(cfg["rules"]) // 2)
    amb = gen.direct(cfg)
    amb["rules"].append(dict(amb["rules"][0]))
    bad = gen.direct(cfg)
    bad["rules"][0] = dict(bad["rules"][0], next_classes=["undefined"])
    dumped = js[0]
    method = rng.choice(["json", "yaml"])

    def cover(gt):
        gt.clear_visited()
        gt.transliterate(text)
        gt.check_coverage()

    out = [
        ("transliterate", lambda gt: gt.transliterate(text), ()),
        ("transliterate", lambda gt: gt.transliterate(text), ()),
        ("tokenize", lambda gt: gt.tokenize(text), ()),
        ("match_at", lambda gt: gt.match_at(i, toks), (toks,)),
        ("match all", lambda gt: gt.match_at(i, toks, match_all=True), (toks,)),
        ("dump", lambda gt: gt.dump(lvl), ()),
        ("dumps", lambda gt: gt.dumps(lvl), ()),
        ("pruned_of", lambda gt: gt.pruned_of(prods), (prods,)),
        ("attributes", lambda gt: (settings_of(gt), gt.productions, gt.tokenizer_pattern), ()),
        ("from_dict", lambda gt: G.from_dict(d), (d,)),
        ("from_dict ambiguous", lambda gt: G.from_dict(amb), (amb,)),
        ("from_dict invalid", lambda gt: G.from_dict(bad), (bad,)),
        ("load", lambda gt: G.load(dumped, ignore_errors=True), (dumped,)),
        ("loads", lambda gt: G.loads(js[1]).transliterate(text), ()),
        ("bundled", lambda gt: T.Example.new(method=method).transliterate("abc"), ()),
        ("bundled tests", lambda gt: T.Example().run_yaml_tests(), ()),
        ("generated tests", lambda gt: T.Bundled.generate_yaml_tests(gt), ()),
    ]
    if easy is not None:
        out += [("from_easyreading_dict", lambda gt: G.from_easyreading_dict(easy), (easy,)), ("from_yaml", lambda gt: G.from_yaml(yaml), ())]
    return out, [("coverage", cover, ())]


def subject(rng, cfg):
    gt = build(cfg, ignore_errors=rng.random() < 0.4)
    x = rng.random()
    if x < 0.2:
        gt = G.loads(gt.dumps(rng.randrange(3)))
    elif x < 0.3:
        gt = gt.pruned_of([])
    elif x < 0.5:
        gt = c32.measuring(gt)
    return gt


def state(gt, level=None):
    """What it exposes, and its dump at a level, or all of them."""
    return [copy.deepcopy(settings_of(gt)), graph_of(gt), gt.tokenizer_pattern] + [plain(gt.dump(n)) if level in (None, n) else None for n in range(3)]


WHAT = ("settings", "graph", "tokenizer pattern", "dump 0", "dump 1", "dump 2")


def check_state(gt, want, level, name, about):
    for what, x, y in zip(WHAT, state(gt, level), want):
        if x is not None:
            same("%s%s after a call was cut short" % (name, what), x, y, **about)


def told(gt, inputs):
    """Results in both modes, and what they cover."""
    LOG.take()
    mode = gt.ignore_errors
    if isinstance(gt, CoverageTransliterator):
        gt.clear_visited()
    out = []
    for m in (mode, not mode):
        gt.ignore_errors = m
        out += behaviour(gt, inputs)
    gt.ignore_errors = mode
    return out, c38.covered(gt)


def case(rng, mon):
    with c32.Ambient(rng):
        run(rng, mon)


def result(op, gt):
    """What a call gives, comparably."""
    try:
        x = op(gt)
    except Exception as e:
        return type(e).__name__
    return plain(x.dump(0)) if isinstance(x, G) else copy.deepcopy(x)


def run(rng, mon):
    for _ in range(20):
        cfg = c32.small(rng)
        if cfg["rules"]:
            break
    else:
        return
    mem = gen.members(cfg)
    mon.current = {"cfg": cfg}
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0)[:30] for _ in range(2)]
    easy = yaml = None
    ecfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, maxrules=4, maxtokens=4, big=0.0, onmatch=0.5, fanout=0.0))
    ecfg["rules"] = gen.easy_filter(ecfg["rules"])
    if ecfg["rules"]:
        easy = gen.easy_settings(ecfg)
        import yaml as y

        yaml = y.safe_dump(easy, allow_unicode=True, sort_keys=False)
        if y.safe_load(yaml) != easy or "\\N{" in yaml:
            easy = yaml = None
    # before anything is cut short
    before = c32.process()
    seed = rng.random()
    fresh = lambda: subject(random.Random(seed), cfg)
    gt = fresh()
    first = fresh()
    want, says = state(first), told(first, inputs)
    judged = accepted(cfg_json(cfg))
    js = [build(cfg).dump(rng.randrange(3)), build(cfg).dumps(rng.randrange(3))]
    ops, more = calls(rng, cfg, mem, js, easy, yaml)
    if isinstance(gt, CoverageTransliterator):
        ops = ops + more * 3
    names = list(T.iter_names())
    used = rng.random() < 0.5
    if used:
        told(gt, inputs)
    done = []
    mon.current["cut"] = done
    thorough = getattr(mon, "tier", "quick") == "thorough"
    for _ in range(8):
        name, op, args = gen.pick(rng, ops)
        given = copy.deepcopy(args)
        LOG.take()
        c = Cutter()
        if rng.random() < 0.5 and not used:
            c.run(lambda: op(fresh()))
        else:
            c.run(lambda: op(gt))
            used = True
        if not c.n:
            continue
        many = 30 if thorough else 10
        every = c.n <= 10 * many and rng.random() < 0.3
        gives = [result(op, fresh()) for _ in range(2)]
        points = list(range(1, c.n + 1)) if every else rng.sample(range(1, c.n + 1), min(c.n, many))
        if every:
            mon.count("exhausted")
        for k, at in enumerate(points):
            anew = rng.random() < 0.3
            one = fresh() if anew else gt
            exc = gen.pick(rng, KINDS)
            cut = Cutter(at, exc)
            hit, came = cut.run(lambda: op(one))
            done.append((name, cut.where, exc.__name__))
            if not hit:
                mon.count("not_reached")
                continue
            mon.count("cut_short")
            mon.count("during " + name)
            mon.feature(name, cut.where, type(one).__name__)
            if not came:
                if not issubclass(exc, Exception):
                    raise Violation("an interruption did not reach the caller", call=name, where=cut.where, exc=exc.__name__)
                mon.count("caught")
            if copy.deepcopy(args) != given:
                raise Violation("arguments were changed by a call cut short", call=name, where=cut.where, got=short(args), want=short(given))
            about = dict(call=name, where=cut.where, anew=anew, history=short(done[-6:]))
            if rng.random() < 0.5 and gives[0] == gives[1]:
                # the same call, at once
                same("what the same call gives after it was cut short", result(op, one), gives[0], **about)
                mon.count("called_again")
            # either may be what is asked first
            if k % 2:
                check_told(one, inputs, says, about)
            check_state(one, want, k % 6, "", about)  # as often as not without dumping
            if not k % 2:
                check_told(one, inputs, says, about)
            now = c32.process()
            for what in before:
                same("of the process after a call was cut short: " + what, now[what], before[what], **about)
            if k % 5 == 0:
                new = fresh()
                check_told(new, inputs, says, dict(about, new=True))
                check_state(new, want, k % 2, "of a new one: ", about)
                if accepted(cfg_json(cfg)) != judged:
                    raise Violation("after a call was cut short a configuration is judged otherwise", want=judged, **about)
                if list(T.iter_names()) != names:
                    raise Violation("the bundled transliterators are others", got=list(T.iter_names()), **about)
                mon.count("new_ones")
    mon.count("histories")
    mon.feature(cfg_shape(cfg), type(gt).__name__)
    mon.sample({"cut": short(done[:6], 500)})


def cfg_json(cfg):
    import json

    return json.dumps(cfg)


def check_told(gt, inputs, says, about):
    now = told(gt, inputs)
    same_behaviour("after a call was cut short", now[0], says[0], **about)
    same("coverage after a call was cut short", now[1], says[1], **about)
