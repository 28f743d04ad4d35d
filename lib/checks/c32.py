"""C32: use leaves nothing behind.

The monitor walks everything reachable from a transliterator and from the library's own modules
and classes after N calls and again after more of them, ending with the same input, and
compares; it also compares what the process has as a whole, and counts the source lines executed
by one and the same call before and after."""
import builtins
import collections
import contextlib
import decimal
import functools
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import warnings
import weakref

from base import G, LOG, Violation, count_steps, gtlib, short
import gen
import ref
from util import build, outcome, cfg_shape
from checks import c06
from graphtransliterator import CoverageTransliterator
from graphtransliterator import transliterators as bundled
from graphtransliterator.exceptions import GraphTransliteratorException
from graphtransliterator.cli import main as cli_main
from click.testing import CliRunner

ID = "C32"
CASE_S = 90.0
ATOMS = (int, float, complex, bool, type(None), range, type(Ellipsis))
OTHERS = (types.ModuleType, type, logging.Logger, logging.Handler, logging.Manager, io.IOBase)


def ours(x):
    return (getattr(x, "__module__", None) or "").split(".")[0] == "graphtransliterator"


def measure(roots):
    """(objects, characters) reachable from the roots through containers, attributes, closures
    and defaults, staying inside the library's own modules and classes."""
    seen = set()
    keep = []
    todo = list(roots)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "graphtransliterator" and m is not None:
            todo.append(("module", m))
    objects = chars = 0
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "module" and isinstance(x[1], types.ModuleType):
            todo.extend(v for k, v in list(vars(x[1]).items()) if not isinstance(v, types.ModuleType) and k != "__builtins__")
            objects += len(vars(x[1]))
            continue
        objects += 1
        if isinstance(x, ATOMS):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, (str, bytes, bytearray)):
            chars += len(x)
            continue
        if isinstance(x, type):
            if ours(x):
                todo.extend(v for k, v in list(vars(x).items()) if k not in ("__dict__", "__weakref__", "__abstractmethods__"))
            continue
        if isinstance(x, OTHERS):
            continue
        if isinstance(x, types.FunctionType):
            if ours(x) or getattr(x, "__wrapped__", None) is not None:
                todo.extend(x.__defaults__ or ())
                todo.extend((x.__kwdefaults__ or {}).values())
                todo.extend(vars(x).values())
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
            continue
        if isinstance(x, (staticmethod, classmethod, types.MethodType)):
            todo.append(x.__func__)
            continue
        if isinstance(x, property):
            todo.extend(f for f in (x.fget, x.fset, x.fdel) if f)
            continue
        if hasattr(x, "cache_info"):
            objects += x.cache_info().currsize
        if isinstance(x, weakref.ref):
            continue
        if isinstance(x, (dict, types.MappingProxyType, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            for k, v in list(x.items()):
                todo.append(k)
                todo.append(v)
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque, weakref.WeakSet)):
            todo.extend(list(x))
        elif isinstance(x, threading.local):
            todo.extend(list(vars(x).values()))
            continue
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            todo.extend(list(d.keys()))
            todo.extend(list(d.values()))
        for t in type(x).__mro__:
            slots = t.__dict__.get("__slots__", ())
            for s in [slots] if isinstance(slots, str) else slots:
                if s not in ("__dict__", "__weakref__"):
                    try:
                        todo.append(getattr(x, s))
                    except AttributeError:
                        pass
    return objects, chars


def elsewhere():
    """Sizes of what the library could leave in the libraries it uses."""
    import marshmallow.class_registry as cr

    return {
        "schema classes registered": sum(len(v) if isinstance(v, (list, dict)) else 1 for v in cr._registry.values()),
        "modules": len(sys.modules),
        "loggers": len(logging.Logger.manager.loggerDict),
        "threads": threading.active_count(),
        "open files": len(os.listdir("/proc/self/fd")),
        "yaml resolvers": sum(len(v) for v in __import__("yaml").SafeLoader.yaml_implicit_resolvers.values()) + sum(len(v) for v in __import__("yaml").Loader.yaml_implicit_resolvers.values()),
        "yaml constructors": len(__import__("yaml").SafeLoader.yaml_constructors) + len(__import__("yaml").SafeDumper.yaml_representers),
        "temporary files": len(os.listdir(tempfile.gettempdir())) if os.path.realpath(tempfile.gettempdir()).startswith(SCRATCH) else 0,
    }


SCRATCH = os.path.realpath(os.environ.get("VERIF_SCRATCH") or "/nonexistent")


def process():
    """What the process has set, for all of it."""
    root = logging.getLogger()
    lib = logging.getLogger("graphtransliterator")
    return {
        "working directory": os.getcwd(),
        "files there": sorted(os.listdir(".")),
        "environment": dict(os.environ),
        "sys.path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "random state": random.getstate(),
        "locale": locale.setlocale(locale.LC_ALL),
        "root logger": (root.level, list(root.handlers), list(root.filters), root.disabled),
        "library logger": (lib.level, list(lib.handlers), list(lib.filters), lib.disabled, lib.propagate),
        "logging disabled": logging.root.manager.disable,
        "warning filters": [str(x) for x in warnings.filters],
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP)],
        "umask": umask(),
        "stdin, stdout, stderr": (sys.stdin, sys.__stdout__, sys.__stderr__),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
        "switch interval": sys.getswitchinterval() if hasattr(sys, "getswitchinterval") else None,
        "collector": gc.isenabled(),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks), sys.dont_write_bytecode),
        "builtins": sorted(k for k in vars(builtins) if k != "_"),
        "decimal context": str(decimal.getcontext()),
        "time zone": time.tzname,
        "default timeout": socket.getdefaulttimeout(),
        "unhandled errors in threads": getattr(threading, "excepthook", None),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


# ------------------------------------------------------------------ scenarios


def measuring(gt, **kw):
    return CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, metadata=gt.metadata, ignore_errors=gt.ignore_errors, check_ambiguity=False, **kw)


class Scenario:
    """One kind of call, made again and again with ever different arguments."""

    def __init__(self, rng, cfg, mem, coverage):
        self.rng, self.cfg, self.mem = rng, cfg, mem
        # configurations to construct keep their size, so that only their number grows
        self.cfg = cfg
        self.gt = build(cfg, ignore_errors=rng.random() < 0.5)
        if coverage:
            self.gt = measuring(self.gt)
        self.i = 0
        self.json = self.gt.dumps()
        self.toks = list(cfg["tokens"])
        self.wb = cfg["whitespace"]["default"]
        self.text = self.wb.join(gen.pick(rng, self.toks) for _ in range(6))
        self.foreign = next(chr(c) for c in range(0xE100, 0xE200) if not any(chr(c) in t for t in self.toks))

    def input(self):
        """Different every time, mostly of about the same length."""
        self.i += 1
        n, out = self.i, []
        while n:
            out.append(self.toks[n % len(self.toks)])
            n //= max(2, len(self.toks))
        n = 1 if self.rng.random() < 0.97 else self.rng.randrange(2, 40)
        return "".join(out) + self.wb + "".join(gen.pick(self.rng, self.toks) for _ in range(n))

    def variant(self):
        self.i += 1
        c = gen.direct(self.cfg)
        c["metadata"] = {"n": "%07d" % self.i}
        if c["rules"]:
            # the same length of text
            c["rules"][self.i % len(c["rules"])]["production"] = "%06d" % self.i
        t = chr(0x10000 + self.i)
        c["tokens"][t] = ["one"]
        c["rules"].append({"tokens": [t], "production": "%06d" % self.i})
        return c

    def finish(self):
        with contextlib.suppress(Exception):
            self.gt.transliterate(self.text)


def transliterate(s):
    outcome(s.gt.transliterate, s.input())


def transliterate_bad(s):
    x = s.input()
    k = s.rng.randrange(len(x) + 1)
    outcome(s.gt.transliterate, x[:k] + s.foreign + x[k:])


def tokenize(s):
    outcome(s.gt.tokenize, s.input() + (s.foreign if s.rng.random() < 0.2 else ""))


def match(s):
    t = outcome(s.gt.tokenize, s.input())[1]
    if isinstance(t, list):
        i = s.rng.randrange(len(t))
        s.gt.match_at(i, t)
        s.gt.match_at(i, t, match_all=True)


def attributes(s):
    outcome(s.gt.transliterate, s.input())
    with contextlib.suppress(AttributeError):
        s.gt.last_input_tokens, s.gt.last_matched_rules, s.gt.last_matched_rule_tokens
    s.gt.productions, s.gt.rules, s.gt.graph, s.gt.tokens_by_class, s.gt.metadata, s.gt.onmatch_rules
    s.gt.ignore_errors = not s.gt.ignore_errors
    s.gt.ignore_errors = not s.gt.ignore_errors


def switch(s):
    m = s.gt.ignore_errors
    s.gt.ignore_errors = not m
    outcome(s.gt.transliterate, s.input() + s.foreign)
    s.gt.ignore_errors = m


def coverage(s):
    if isinstance(s.gt, CoverageTransliterator):
        outcome(s.gt.transliterate, s.input())
        with contextlib.suppress(GraphTransliteratorException):
            s.gt.check_coverage()
        if s.rng.random() < 0.3:
            s.gt.clear_visited()
    else:
        transliterate(s)


def dump(s):
    s.i += 1
    s.gt.dump(s.i % 3)


def dumps(s):
    s.i += 1
    s.gt.dumps(s.i % 3)


def prune(s):
    s.i += 1
    outcome(s.gt.pruned_of([s.gt.productions[s.i % len(s.gt.productions)], "%07d" % s.i]).transliterate, s.text)


def construct(s):
    outcome(G.from_dict(s.variant(), check_ambiguity=False).transliterate, s.text)


def construct_refused(s):
    c = s.variant()
    c["rules"][-1]["next_classes"] = ["undefined%07d" % s.i]
    try:
        G.from_dict(c)
    except Exception:
        return
    raise Violation("an undefined class is accepted")


def construct_ambiguous(s):
    c = s.variant()
    c["rules"].append(dict(c["rules"][-1]))
    try:
        G.from_dict(c)
    except Exception:
        return
    raise Violation("ambiguous rules are accepted")


def load(s):
    s.i += 1
    d = s.gt.dump(0)
    d["metadata"] = {"n": "%07d" % s.i}
    outcome(G.load(d).transliterate, s.text)


def loads(s):
    s.i += 1
    outcome(G.loads(s.gt.dumps(s.i % 3)).transliterate, s.text)


def pruned_again(s):
    """Each from the one before."""
    s.i += 1
    s.gt = s.gt.pruned_of("%07d" % s.i)
    outcome(s.gt.transliterate, s.text)


def loaded_again(s):
    s.i += 1
    k = s.i % 3
    s.gt = G.loads(s.gt.dumps(k)) if s.i % 2 else G.load(s.gt.dump(k))
    outcome(s.gt.transliterate, s.text)


def measured_again(s):
    s.i += 1
    s.gt = measuring(s.gt, graph=s.gt.graph) if s.i % 2 else measuring(s.gt)
    outcome(s.gt.transliterate, s.text)


YAML = """
tokens:
  %(t)s: [c]
  b: [c]
  ' ': [wb]
rules:
  %(t)s: A
  b: B
  <wb> b (%(t)s): C
  ' ': ' '
onmatch_rules:
  - <c> + <c>: ","
whitespace:
  default: " "
  token_class: wb
  consolidate: false
metadata:
  n: "%(n)07d"
"""


def yaml(s):
    s.i += 1
    G.from_yaml(YAML % {"t": chr(0x4E00 + s.i), "n": s.i}).transliterate("b b")


def yaml_file(s):
    s.i += 1
    path = os.path.join(SCRATCH if os.path.isdir(SCRATCH) else tempfile.gettempdir(), "c32-%d.yaml" % os.getpid())
    with open(path, "w", encoding="utf-8") as f:
        f.write(YAML % {"t": chr(0x4E00 + s.i), "n": s.i})
    try:
        G.from_yaml_file(path).transliterate("b b")
    finally:
        os.unlink(path)


def shipped(s):
    s.i += 1
    t = bundled.Example(ignore_errors=bool(s.i % 2)) if s.i % 3 else bundled.Example.new(method="yaml") if hasattr(bundled.Example, "new") else bundled.Example()
    outcome(t.transliterate, "a" * (s.i % 5))


def shipped_tests(s):
    s.i += 1
    t = bundled.Example()
    t.run_yaml_tests()
    t.load_yaml_tests()
    t.run_tests({"a": "A"} if s.i < 0 else t.load_yaml_tests())


def generate(s):
    s.i += 1
    with contextlib.suppress(GraphTransliteratorException, ValueError):
        bundled.Bundled.generate_yaml_tests(s.gt)


def command(s):
    s.i += 1
    kind = s.i % 4
    CliRunner().invoke(cli_main, ["transliterate", "--from", "bundled", "Example", "a" * (1 + s.i % 5)] if kind == 0 else
                       ["transliterate", "--from", "json", s.json, "x" + "a" * (s.i % 5)] if kind == 1 else
                       ["dump", "--from", "bundled", "Example"] if kind == 2 else ["test", "Example"])


SCENARIOS = [  # call, how many times before the first measurement, and again
    (transliterate, 3000), (transliterate_bad, 3000), (tokenize, 3000), (match, 2500), (attributes, 2500), (switch, 2500), (coverage, 1500),
    (dump, 250), (dumps, 250), (prune, 250), (construct, 250), (construct_refused, 250), (construct_ambiguous, 250), (load, 250), (loads, 250), (pruned_again, 250), (loaded_again, 200), (measured_again, 250),
    (yaml, 60), (yaml_file, 60), (shipped, 40), (shipped_tests, 40), (generate, 120), (command, 40),
]


FILES = (yaml_file, shipped, shipped_tests, command)


def small(rng):
    while True:
        if rng.random() < 0.4:
            cfg = c06.config(rng)
        else:
            cfg = gen.config(rng, gen.Opts(min_rules=2, big=0.0, fanout=0.0, maxtokens=6, total=0.6, onmatch=0.6))
        if len(cfg["rules"]) <= 12 and len(cfg["tokens"]) <= 20 and len(cfg.get("onmatch_rules") or ()) <= 12 and all(len(t) < 10 for t in cfg["tokens"]):
            return cfg


def case(rng, mon):
    # the first cases of the workers go through all kinds of call
    n = getattr(mon, "c32", 0)
    mon.c32 = n + 1
    func, times = SCENARIOS[(getattr(mon, "wid", 0) * 3 + n) % len(SCENARIOS)] if n < 3 else gen.pick(rng, SCENARIOS)
    if getattr(mon, "tier", "quick") == "thorough":
        times *= 3
    cfg = small(rng)
    with Ambient(rng):
        run(rng, mon, func, times, cfg)


class Ambient:
    """Process-wide settings unlike those a library might choose."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.lib = logging.getLogger("graphtransliterator")
        self.old = os.getcwd(), sys.getrecursionlimit(), umask(), self.lib.level, list(warnings.filters)
        self.dir = tempfile.mkdtemp(prefix="c32-", dir=SCRATCH if os.path.isdir(SCRATCH) else None)
        os.chdir(self.dir)
        random.seed(rng.random())
        sys.setrecursionlimit(self.old[1] - rng.randrange(1, 60))
        os.umask(rng.choice([0o22, 0o27, 0o77]))
        self.lib.setLevel(rng.choice([logging.NOTSET, logging.DEBUG, logging.WARNING, logging.ERROR]))
        warnings.filterwarnings("ignore", message="c32 %d" % rng.randrange(1000))
        os.environ["C32_AMBIENT"] = str(rng.random())

    def __exit__(self, *exc):
        os.chdir(self.old[0])
        sys.setrecursionlimit(self.old[1])
        os.umask(self.old[2])
        self.lib.setLevel(self.old[3])
        warnings.filters[:] = self.old[4]
        shutil.rmtree(self.dir, ignore_errors=True)


def run(rng, mon, func, times, cfg):
    before = process()
    s = Scenario(rng, cfg, gen.members(cfg), rng.random() < 0.3 or func is coverage)
    name = func.__name__
    mon.current = {"cfg": cfg, "call": name, "class": type(s.gt).__name__}
    func(s)
    s.finish()
    LOG.take()
    if func in (shipped, command):
        bundled.Example()
    told = io.StringIO()
    quiet = func is not command

    def steps():
        LOG.take()
        return count_steps(lambda: outcome(s.gt.transliterate, s.text))[1]

    first = min(steps(), steps())
    # after thousands of calls it says what it said at first
    model = ref.Model(cfg)
    texts = [t for t in (s.text, s.text + s.foreign, s.toks[0]) if not model.run(t)["ties"]]
    said = [outcome(s.gt.transliterate, t) for t in texts]
    mode = s.gt.ignore_errors

    # What a call opens is closed without the collector's help. (Some may be kept open, a few.)
    if func in FILES:
        gc.collect()
        was = gc.isenabled()
        gc.disable()
        try:
            fds = len(os.listdir("/proc/self/fd"))
            for _ in range(6):
                func(s)
            left = len(os.listdir("/proc/self/fd")) - fds
        finally:
            if was:
                gc.enable()
        if left >= 5:
            raise Violation("calls leave files open", call=name, calls=6, open=left)
        mon.count("calls_checked_for_open_files", 6)

    def go(k):
        for _ in range(k):
            func(s)
            if len(LOG.records) > 50:
                LOG.take()

    old = sys.stdout, sys.stderr
    got = []
    if quiet:  # click's runner replaces them itself
        sys.stdout = sys.stderr = told
    try:
        for part in range(3):
            go(times)
            s.finish()
            LOG.take()
            gc.collect()
            got.append((measure([s.gt]), elsewhere()))
    finally:
        sys.stdout, sys.stderr = old
    (o1, c1), e1 = got[1]
    (o2, c2), e2 = got[2]
    mon.count("calls", 3 * times)
    mon.count("objects_seen", o2)
    mon.count("call " + name)
    mon.maximum("growth_objects", o2 - o1)
    mon.maximum("growth_characters", c2 - c1)
    # Something kept for each call, or each fiftieth one, shows, and so does a text that grows.
    # A bounded store is full by then, or given the time to fill up.
    sizes = [x[0] for x in got]
    rounds = 3 if times > 1000 else 10

    def grew():
        return sizes[-1][0] - sizes[-2][0] > 30 + times // 50 or sizes[-1][1] - sizes[-2][1] > 300 + times

    while grew():
        if not rounds:
            raise Violation("state grows with the number of calls", call=name, times=times, objects=[x[0] for x in sizes], characters=[x[1] for x in sizes], cls=type(s.gt).__name__)
        rounds -= 1
        go(times)
        s.finish()
        LOG.take()
        gc.collect()
        sizes.append(measure([s.gt]))
        mon.count("given_time_to_fill_up")
    for k in e1:
        if e2[k] - e1[k] > max(2, times // 10):
            raise Violation("what is kept outside the library grows with the number of calls", call=name, times=times, what=k, sizes=[x[1][k] for x in got])
    after = process()
    for k in before:
        if before[k] != after[k]:
            raise Violation("calls change the process", call=name, what=k, before=short(before[k], 400), after=short(after[k], 400))
    mon.count("process_compared")
    if told.getvalue():
        raise Violation("calls write to standard output or error", call=name, text=short(told.getvalue(), 400))
    if s.gt.ignore_errors == mode:
        for t, x in zip(texts, said):
            now = outcome(s.gt.transliterate, t)
            if now != x:
                raise Violation("after many calls the result is another", call=name, times=3 * times, input=t, before=short(x), after=short(now))
            mon.count("results_compared")
    last = min(steps(), steps())
    mon.count("steps_compared")
    mon.maximum("permille_steps_after", 1000 * last // max(1, first))
    if last > 2 * first + 200:
        raise Violation("a call takes ever more steps", call=name, times=3 * times, before=first, after=last)
    mon.feature(name, cfg_shape(cfg), s.gt.ignore_errors, type(s.gt).__name__)
    mon.sample({"call": name, "times": 3 * times, "objects": [x[0][0] for x in got], "characters": [x[0][1] for x in got], "steps": [first, last]})


