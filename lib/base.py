# -*- coding: utf-8 -*-
"""
Runtime of the monitors: imports the code under test from /repo, captures its log,
counts what was observed, and runs generated cases under a per-case watchdog.

Runs under PyPy 3.9, as the repository's own tests do.
"""
import hashlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import graphtransliterator as gtlib  # noqa: E402

if not os.path.abspath(gtlib.__file__).startswith(os.path.join(REPO, "")):
    sys.stderr.write("code under test not imported from %s: %s\n" % (REPO, gtlib.__file__))
    sys.exit(3)

PKG = os.path.dirname(os.path.abspath(gtlib.__file__))
G = gtlib.GraphTransliterator


class Violation(Exception):
    """A monitor refuted the property. `known` names a listed finding, if it is one."""

    def __init__(self, message, known=None, **details):
        Exception.__init__(self, message)
        self.message = message
        self.known = known
        self.details = details


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- log capture


class LogCapture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def take(self):
        out = self.records
        self.records = []
        return out

    def warnings(self):
        return [r for r in self.take() if r.levelno >= logging.WARNING]


LOG = LogCapture()
_root = logging.getLogger()
for _h in list(_root.handlers):
    _root.removeHandler(_h)
_root.addHandler(LOG)
_root.setLevel(logging.WARNING)


# -------------------------------------------------------------------- monitor


class Monitor:
    """Counts what was really observed during a run."""

    MAX_FEATURES = 150000

    def __init__(self):
        self.counters = {}
        self.features = set()
        self.samples = []
        self.current = None
        self.suppressed = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, value):
        name = "max_" + name
        if value > self.counters.get(name, -1):
            self.counters[name] = value

    def feature(self, *parts):
        """A distinct, non-trivial thing observed (hashed)."""
        if len(self.features) < self.MAX_FEATURES:
            h = hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=8)
            self.features.add(h.hexdigest())

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)


def short(obj, limit=1500):
    s = repr(obj)
    return s if len(s) <= limit else s[:limit] + "...<%d chars>" % len(s)


# ---------------------------------------------------------------- step budget


def count_steps(func, limit=None):
    """Runs func() counting source lines executed in the code under test.

    Returns (result, lines); raises StepLimit beyond the limit."""
    n = [0]
    prefix = PKG

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if limit is not None and n[0] > limit:
                raise StepLimit()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            n[0] += 1
            if limit is not None and n[0] > limit:
                raise StepLimit()
            return local
        return None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        res = func()
    finally:
        sys.settrace(old)
    return res, n[0]


def limit_calls(func, limit):
    """Runs func(), raising StepLimit when one call into the code under test executes more
    source lines than the limit. Returns the most that one call executed."""
    n = [0, 0]
    prefix = PKG

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > limit:
                raise StepLimit()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            f = frame.f_back
            if f is not None and f.f_code.co_filename.startswith(CHECKS):    # a call by a monitor
                n[1] = max(n)
                n[0] = 0
            return local
        return None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        func()
    finally:
        sys.settrace(old)
    return max(n)


CHECKS = os.path.join(VERIF, "lib", "")


def _alarm(signum, frame):
    raise CaseTimeout()


STEP_LIMIT = 20 * 1000 * 1000


def in_repo(tb):
    for f, _ in traceback.walk_tb(tb):
        if f.f_code.co_filename.startswith(PKG):
            return True
    return False


def run_case(check, key, mon):
    """Runs one case. Returns None or a violation record."""

    case_s = getattr(check, "CASE_S", 20.0)

    def go():
        LOG.take()
        check.case(random.Random(key), mon)

    try:
        signal.setitimer(signal.ITIMER_REAL, case_s)
        try:
            go()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Violation as e:
        return {"message": e.message, "details": e.details, "known": e.known}
    except Inconclusive:
        raise
    except (CaseTimeout, MemoryError):
        pass
    except RecursionError:
        return {"message": "recursion limit exceeded", "details": {"trace": traceback.format_exc(limit=-4)}, "known": None}
    except Exception as e:
        return {
            "message": "unexpected %s%s: %s"
            % (type(e).__name__, "" if in_repo(e.__traceback__) else " (observed values outside their contract)", e),
            "details": {"trace": traceback.format_exc(limit=-6), "case": short(mon.current, 4000)},
            "known": None,
        }
    # The watchdog fired: decide by the steps that one call executes, not by the clock.
    signal.setitimer(signal.ITIMER_REAL, 200)
    try:
        mon.maximum("lines_in_a_call_of_a_slow_case", limit_calls(go, STEP_LIMIT))
        mon.count("watchdog_fired_but_completed")
        return None
    except Violation as e:
        return {"message": e.message, "details": e.details, "known": e.known}
    except StepLimit:
        return {
            "message": "a call did not finish within %d executed source lines" % STEP_LIMIT,
            "details": {"case": short(mon.current, 4000)},
            "known": None,
        }
    except CaseTimeout:
        mon.count("abandoned_slow_cases")
        if mon.counters["abandoned_slow_cases"] > 1:
            raise Inconclusive("watchdog fired again and again, last on case %s" % key)
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    with open(path) as f:
        data = json.load(f)
    return {d["key"]: d for d in data["findings"] if d["property"] == prop}


def worker(check, seed, wid, tier, budget, cap, min_cases, outfile, max_cases=None):
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    mon = Monitor()
    mon.tier = tier
    mon.wid = wid
    known = known_findings(check.ID)
    t0 = time.time()
    result = {"violation": None, "inconclusive": None, "cases": 0}
    i = 0

    def handle(v, key):
        if v is None:
            return False
        if v["known"] and v["known"] in known:
            mon.suppressed[v["known"]] = mon.suppressed.get(v["known"], 0) + 1
            return False
        v["key"] = key
        v["case"] = short(mon.current, 6000)
        result["violation"] = v
        return True

    try:
        stop = False
        # fixed probes (corner cases that generators reach rarely), spread over workers
        probes = getattr(check, "PROBES", [])
        for n, p in enumerate(probes):
            if n % int(os.environ.get("VERIF_WORKERS", "1")) != wid:
                continue

            class P:
                ID = check.ID
                CASE_S = getattr(check, "CASE_S", 20.0)
                case = staticmethod(p)

            key = "probe:%s" % p.__name__
            if handle(run_case(P, key, mon), key):
                stop = True
                break
            mon.count("probes")
        while not stop:
            el = time.time() - t0
            if el >= cap or (el >= budget and i >= min_cases):
                break
            if max_cases is not None and i >= max_cases:
                break
            key = "%s/%s/%s/%s" % (check.ID, seed, wid, i)
            if handle(run_case(check, key, mon), key):
                break
            i += 1
    except Inconclusive as e:
        result["inconclusive"] = str(e)
    except BaseException as e:  # harness failure
        result["inconclusive"] = "harness: %r\n%s" % (e, traceback.format_exc())
    result["cases"] = i
    result["counters"] = mon.counters
    result["features"] = sorted(mon.features)
    result["samples"] = mon.samples
    result["suppressed"] = mon.suppressed
    result["wall"] = time.time() - t0
    tmp = outfile + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f, default=repr)
    os.rename(tmp, outfile)
