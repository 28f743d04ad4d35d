"""C30: calls running at the same time on one transliterator do not mix.

Threads run under a scheduler which switches between them before chosen source lines of the
library: before every line of one call in turn (one preemption, exhaustive for short calls),
at pairs of points, by priorities that drop, and at random.  Results are those of a twin of
the transliterator, made from the same settings, called by one thread alone."""
import json
import sys
import threading

from base import G, LOG, Violation, short
import gen
import ref
import sched
from graphtransliterator.exceptions import AmbiguousTransliterationRulesException
from util import build, cfg_shape, outcome

ID = "C30"
CASE_S = 150.0


def make_calls(rng, cfg, k, settings=0.0, kinds=("dump", "dumps", "prune", "load", "loads", "construct", "ambiguity", "read")):
    """Descriptions of calls on a transliterator of this configuration."""
    mem = gen.members(cfg)
    out = []
    for _ in range(k):
        x = rng.random()
        n = rng.choice([1, 2, 3, 4, 6])
        if rng.random() < settings:
            text = gen.text(rng, cfg, n, errors=0.1, mem=mem, long=0)
            kind = rng.choice(kinds)
            if kind in ("dump", "dumps", "load", "loads", "read"):
                out.append((kind, rng.randrange(3), text))
            elif kind == "prune":
                ps = [r["production"] for r in cfg["rules"]]
                out.append((kind, [gen.pick(rng, ps) for _ in range(rng.randrange(3))], text))
            else:
                c = gen.direct(cfg)
                if c["rules"] and rng.random() < 0.6:
                    c["rules"][rng.randrange(len(c["rules"]))]["production"] = "other"
                out.append((kind, json.dumps(c), text))
        elif x < 0.65:
            out.append(("transliterate", gen.text(rng, cfg, n, errors=0.15, mem=mem, long=0)))
        elif x < 0.8:
            out.append(("tokenize", gen.text(rng, cfg, n, errors=0.15, mem=mem, long=0)))
        else:
            toks = gen.framed_seq(rng, cfg, n, mem)
            out.append(("match_at", rng.randrange(1, len(toks)), toks, rng.random() < 0.5))
    return out


def perform(gt, d):
    if d[0] in SETTINGS:
        return SETTINGS[d[0]](gt, *d[1:])
    if d[0] == "transliterate":
        return outcome(gt.transliterate, d[1])
    if d[0] == "tokenize":
        r = outcome(gt.tokenize, d[1])
        return (r[0], list(r[1]) if r[0] == "ok" else r[1])
    r = outcome(lambda: gt.match_at(d[1], list(d[2]), match_all=d[3]))
    if r[0] == "ok" and d[3]:
        return (r[0], list(r[1]))
    return r


def plain(x):
    return json.dumps(x, sort_keys=True)


def accepted(c):
    try:
        G.from_dict(json.loads(c))
        return True
    except AmbiguousTransliterationRulesException:
        return False


def both(made, text):
    made.ignore_errors = True
    return (len(made.rules), outcome(made.transliterate, text))


def read(gt):
    """What it exposes."""
    return plain([gt.tokens and sorted((k, sorted(v)) for k, v in gt.tokens.items()), [list(x) for x in gt.rules], [list(x) for x in gt.onmatch_rules or ()],
                  sorted((k, sorted(v)) for k, v in gt.tokens_by_class.items() if v), list(gt.whitespace), gt.productions, gt.tokenizer_pattern, gt.metadata,
                  sorted((k, sorted((a, list(b)) for a, b in v.items())) for k, v in (gt.onmatch_rules_lookup or {}).items()), bool(gt.ignore_errors),
                  sorted(map(list, gt.graph.edge_list)), len(gt.graph.node)])


SETTINGS = {
    "read": lambda gt, level, text: read(gt),
    "dump": lambda gt, level, text: plain(gt.dump(level)),
    "dumps": lambda gt, level, text: plain(json.loads(gt.dumps(level))),
    "prune": lambda gt, ps, text: both(gt.pruned_of(list(ps)), text),
    "load": lambda gt, level, text: both(G.load(gt.dump(level)), text),
    "loads": lambda gt, level, text: both(G.loads(gt.dumps(level)), text),
    "construct": lambda gt, c, text: both(G.from_dict(json.loads(c), check_ambiguity=False), text),
    "ambiguity": lambda gt, c, text: accepted(c),
}


def check_run(calls, decide, want, mon, descr, first=0):
    LOG.take()
    il = sched.Interleaving(calls, decide, first)
    got = il.run()
    LOG.take()
    mon.count("interleavings")
    mon.count("switches", len(il.switches))
    mon.count("steps", il.steps)
    if il.stalls:
        mon.count("turns_passed_on_from_blocked_threads", il.stalls)
    mon.maximum("switches_in_a_run", len(il.switches))
    mon.feature(tuple(il.switches), tuple(il.own_steps))
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation("a call gave another result than alone", thread=i, call=short(descr[i]), got=short(g), alone=short(w),
                            switches=short(il.switches[-12:], 900), calls=short(descr))
    return il


def schedules(rng, mon, fresh, descr, want, budget):
    """Interleavings of two or more calls. fresh() gives the calls on new or the same objects."""
    n = len(descr)
    base = check_run(fresh(), sched.never, want, mon, descr)
    lens = base.own_steps
    total = sum(lens)
    budget = min(budget, max(8, (80000 if mon.tier == "quick" else 400000) // total))
    # one preemption, before each line of each call
    points = [(a, k) for a in range(n) for k in range(1, lens[a] + 1)]
    if len(points) > budget:
        points = rng.sample(points, budget)
    else:
        mon.count("exhausted_single_preemptions")
    for a, k in points:
        b = rng.choice([x for x in range(n) if x != a])
        check_run(fresh(), sched.at_points({(a, k): b}), want, mon, descr, first=a)
        mon.count("single_preemptions")
    # two preemptions: a -> b at k, b -> a at l
    for _ in range(budget // 2):
        a = rng.randrange(n)
        b = rng.choice([x for x in range(n) if x != a])
        pts = {(a, rng.randrange(1, lens[a] + 1)): b, (b, rng.randrange(1, lens[b] + 1)): a}
        if rng.random() < 0.4:
            pts[(a, rng.randrange(1, lens[a] + 1))] = b
        check_run(fresh(), sched.at_points(pts), want, mon, descr, first=a)
        mon.count("several_preemptions")
    for _ in range(budget // 6):
        check_run(fresh(), sched.by_priority(rng, n, rng.choice([1, 2, 3, 5]), total), want, mon, descr)
        mon.count("by_priority")
    for p in (1.0, 0.5, 0.2, 0.05):
        for _ in range(max(1, budget // 25)):
            check_run(fresh(), sched.at_random(rng, p), want, mon, descr)
            mon.count("at_random")


def traced(gt, d):
    """Result of a call alone, and the lines it executed."""
    lines = []

    def decide(me, step, alive):
        return None

    il = sched.Interleaving([lambda: perform(gt, d)], decide)
    il.seen = lambda frame: lines.append((frame.f_code.co_filename, frame.f_lineno))
    LOG.take()
    r = il.run()[0]
    LOG.take()
    return r, lines


warm = set()


def first_use(rng, cfg, ignore, mon):
    """What a call does only the first time on a transliterator (things made when first needed)
    is where another thread might find it half done: each such line is a point of preemption."""
    base = build(cfg, ignore_errors=ignore)
    level = rng.randrange(3)
    how = rng.randrange(4)

    def make():
        if how == 0:
            return G.loads(text)
        if how == 1:
            return base.pruned_of([])
        return build(cfg, ignore_errors=ignore)

    text = base.dumps(level)
    mem = gen.members(cfg)
    descr = [("transliterate", gen.text(rng, cfg, rng.choice([3, 6, 10]), errors=0.1, mem=mem, long=0)) for _ in range(2)]
    descr += make_calls(rng, cfg, 3, 0.8)
    # a call that inserts something is worth more than others
    descr.sort(key=lambda d: d[0] != "transliterate")
    if mon.tier == "quick":
        descr = descr[:2] + rng.sample(descr[2:], 1)
    for i, d in enumerate(descr):
        if d[0] in SETTINGS and d[0] not in warm:      # what the process does once only
            warm.add(d[0])
            perform(make(), d)
        g = make()
        want, first = traced(g, d)
        again, second = traced(g, d)
        mon.count("first_uses")
        if len(first) <= len(second):
            continue
        mon.count("first_uses_that_do_more")
        mon.count("first_uses_that_do_more: " + d[0])
        rest = {}
        for x in second:
            rest[x] = rest.get(x, 0) + 1
        points = []
        for k, x in enumerate(first):
            if rest.get(x, 0):
                rest[x] -= 1
            else:
                points.append(k + 1)
        points += [k + 1 for k in points if k < len(first) and k + 1 not in points]
        cap = max(6, min(60, 60000 // len(first)) if mon.tier == "quick" else min(300, 400000 // len(first)))
        if len(points) > cap:
            points = rng.sample(points, cap)
        for j in (i, rng.randrange(len(descr))):
            other = perform(make(), descr[j])
            for k in points:
                g = make()
                check_run([lambda: perform(g, d), lambda: perform(g, descr[j])], sched.at_points({(0, k): 1}), [again if again == want else want, other], mon, [d, descr[j]])
                mon.count("preemptions_at_first_use")


def variants(rng, cfg, gt):
    """Another transliterator which might share something with gt."""
    x = rng.randrange(5)
    if x == 0:
        return G.loads(gt.dumps(rng.randrange(3)))
    if x == 1:
        return G.load(gt.dump(0), ignore_errors=gt.ignore_errors)
    if x == 2:
        return gt.pruned_of([])
    if x == 3:
        return build(cfg, ignore_errors=not gt.ignore_errors)
    return None


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(maxrules=12, min_rules=2, maxtokens=6, big=0, onmatch=0.7))
    ignore = rng.random() < 0.5
    budget = 40 if mon.tier == "quick" else 150
    mon.current = {"cfg": cfg, "ignore": ignore}
    mon.feature(cfg_shape(cfg))
    n = rng.choice([2, 2, 2, 3, 4])
    settings = rng.choice([0.0, 0.0, 0.5, 0.9])
    descr = make_calls(rng, cfg, n, settings)
    mon.count("settings_calls", sum(d[0] in SETTINGS for d in descr))
    mon.current["calls"] = descr
    twin = build(cfg, ignore_errors=ignore)
    want = [perform(twin, d) for d in descr]
    mon.count("outputs", sum(isinstance(w, tuple) and w[0] == "ok" for w in want))
    mon.count("errors", sum(isinstance(w, tuple) and w[0] == "error" for w in want))
    shared = build(cfg, ignore_errors=ignore)
    x = rng.random()
    if x < (0.6 if settings < 0.9 else 0.3):
        if rng.random() < 0.3:   # a transliterator without a past each time
            def fresh():
                g = build(cfg, ignore_errors=ignore)
                return [lambda d=d: perform(g, d) for d in descr]
            budget //= 2
        else:
            def fresh():
                return [lambda d=d: perform(shared, d) for d in descr]
        mon.count("shared")
    else:
        gts = [shared]
        wants = [want[0]]
        cfgs = [cfg]
        for i in range(1, n):
            v = variants(rng, cfg, shared)
            if v is None:
                c2 = gen.config(rng, gen.Opts(maxrules=12, min_rules=2, maxtokens=6, big=0, onmatch=0.7))
                v = build(c2, ignore_errors=rng.random() < 0.5)
                alone = build(c2, ignore_errors=v.ignore_errors)
                # often the same kind of call on settings, of other settings
                alike = [d[0] for d in descr if d[0] in SETTINGS]
                descr[i] = make_calls(rng, c2, 1, settings, alike or sorted(SETTINGS))[0] if rng.random() < 0.7 else make_calls(rng, c2, 1, settings)[0]
            else:
                alone = G.loads(v.dumps(0))
            gts.append(v)
            wants.append(perform(alone, descr[i]))
        want = wants

        def fresh():
            return [lambda d=d, g=g: perform(g, d) for d, g in zip(descr, gts)]
        mon.count("separate")
    first_use(rng, cfg, ignore, mon)
    schedules(rng, mon, fresh, descr, want, budget)
    if rng.random() < 0.3:
        stress(rng, cfg, ignore, mon)
    mon.sample({"calls": short(descr, 300), "results": short(want, 200)})


def stress(rng, cfg, ignore, mon):
    """Threads left to the interpreter, switching as often as it does."""
    descr = make_calls(rng, cfg, 12, rng.choice([0.0, 0.2]))
    twin = build(cfg, ignore_errors=ignore)
    want = [perform(twin, d) for d in descr]
    gt = build(cfg, ignore_errors=ignore)
    bad = []
    seeds = [rng.random() for _ in range(4)]

    def run(seed):
        import random
        r = random.Random(seed)
        for _ in range(60):
            i = r.randrange(len(descr))
            try:
                got = perform(gt, descr[i])
            except Exception as e:
                got = ("raised", type(e).__name__, str(e))
            if got != want[i]:
                bad.append((descr[i], got, want[i]))
                return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=(s,), daemon=True) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    LOG.take()
    mon.count("free_running_calls", 60 * len(seeds))
    if bad:
        d, got, w = bad[0]
        raise Violation("a call gave another result than alone", call=short(d), got=short(got), alone=short(w))
