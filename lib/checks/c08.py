"""C08: results depend on the transliterator and the input only, not on history."""
import json
import os
import subprocess
import sys
import time

from base import G, LOG, REPO, VERIF, Violation, gtlib, short
import gen
import outjob
import ref
from util import build, outcome, rule_set
from checks import c06, c25
from graphtransliterator import CoverageTransliterator

ID = "C08"
CASE_S = 200.0  # some start processes


def elsewhere(rng, mon):
    """The same configurations and inputs in processes of their own, with other hash seeds."""
    jobs = []
    for _ in range(12):
        cfg = c06.config(rng) if rng.random() < 0.4 else gen.config(rng, gen.Opts(min_rules=2, big=0.0, fanout=0.0, total=0.5, onmatch=0.6))
        try:
            json.dumps(cfg).encode("utf-8")
        except (TypeError, ValueError):
            continue
        model = ref.Model(cfg)
        mem = gen.members(cfg)
        texts = [s for s in (gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0) for _ in range(8)) if not model.run(s)["ties"]]
        jobs.append({"cfg": gen.direct(cfg), "texts": texts})
    mon.current = {"jobs": jobs}
    fin = os.path.join(os.environ["VERIF_SCRATCH"], "out-in-%d.json" % os.getpid())
    fout = os.path.join(os.environ["VERIF_SCRATCH"], "out-out-%d.json" % os.getpid())
    with open(fin, "w", encoding="utf-8") as f:
        json.dump(jobs, f)
    got = []
    for kind in (["pypy", "cpython"] if c25.has_cpython() else ["pypy"]):
        seed = rng.randrange(1, 4 * 10 ** 9)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED=str(seed), PYTHONPATH=os.pathsep.join([REPO] + (c25.SITE if kind == "cpython" else [])), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        try:
            p = subprocess.run([sys.executable if kind == "pypy" else "/usr/bin/python3", "-B", "-X", "utf8", os.path.join(VERIF, "lib", "outjob.py"), fin, fout], env=env,
                               cwd=os.environ["VERIF_SCRATCH"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
        except subprocess.TimeoutExpired:
            mon.count("process_timeouts")
            continue
        if p.returncode and kind == "cpython":
            mon.count("process_failed")  # another version of Python altogether
            continue
        if p.returncode:
            raise Violation("using the configurations in another process failed", kind=kind, hash_seed=seed, output=short(p.stdout.decode("utf-8", "replace")[-1500:]))
        with open(fout, encoding="utf-8") as f:
            got.append((kind, seed, json.load(f)))
        mon.count("process_" + kind)
    here = [outjob.results(G, (gtlib.exceptions.NoMatchingTransliterationRuleException, gtlib.exceptions.UnrecognizableInputTokenException),
                           gtlib.exceptions.AmbiguousTransliterationRulesException, j["cfg"], j["texts"]) for j in jobs]
    for kind, seed, res in got:
        for j, a, b in zip(jobs, res, here):
            for n, (x, y) in enumerate(zip(a, b)):
                # the number of warnings is not counted in this process
                if (x[:-2] + x[-1:] != y[:-2] + y[-1:]) if n else x != y:
                    raise Violation("another process gives other results", kind=kind, hash_seed=seed, cfg=short(j["cfg"], 3000), what=j["texts"][(n - 1) % len(j["texts"])] if n else "acceptance",
                                    there=short(x), here=short(y))
                mon.count("compared_with_process")


def demanded(model, s, mode):
    """What the rules demand; None where equally specific ones compete."""
    run = model.run(s)
    if run["ties"]:
        return None
    if not mode and (run["bad"] or run["nomatch"]):
        return ("error", "UnrecognizableInputTokenException" if run["bad"] else "NoMatchingTransliterationRuleException")
    return ("ok", run["output"])


def alone(cfg, s, mode):
    """The result in a process that did nothing else."""
    fin = os.path.join(os.environ["VERIF_SCRATCH"], "alone-in-%d.json" % os.getpid())
    fout = os.path.join(os.environ["VERIF_SCRATCH"], "alone-out-%d.json" % os.getpid())
    with open(fin, "w") as f:
        json.dump([{"cfg": gen.direct(cfg), "texts": [s], "modes": [mode]}], f)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED="0", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    try:
        p = subprocess.run([sys.executable, "-B", "-X", "utf8", os.path.join(VERIF, "lib", "outjob.py"), fin, fout], env=env,
                           cwd=os.environ["VERIF_SCRATCH"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        return None
    with open(fout, encoding="utf-8") as f:
        return tuple(json.load(f)[0][1][:2])


def record(gt, s):
    LOG.take()
    r = outcome(gt.transliterate, s)
    n = len(LOG.warnings())
    if r[0] == "ok":
        return (r, n, list(gt.last_input_tokens), [ref.rule(x) for x in gt.last_matched_rules],
                [list(x) for x in gt.last_matched_rule_tokens])
    return (r, n, None, None, None)


def many(rng, mon):
    """One transliterator used thousands of times says what a new one says."""
    cfg = c06.config(rng) if rng.random() < 0.4 else gen.config(rng, gen.Opts(min_rules=2, metadata=0.1, big=0.0, total=0.6, onmatch=0.4))
    mem = gen.members(cfg)
    pool = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0)[:40] for _ in range(30)]
    mon.current = {"cfg": cfg, "pool": pool}
    expect = {(s, m): record(build(cfg, ignore_errors=m), s) for s in pool for m in (False, True)}
    gt = build(cfg)
    if rng.random() < 0.3:
        gt = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, check_ambiguity=False)
    n = rng.choice([500, 1500, 3000])
    end = time.time() + 6
    for i in range(n):
        m = rng.random() < 0.5
        gt.ignore_errors = m
        s = gen.pick(rng, pool)
        got = record(gt, s)
        if got != expect[s, m]:
            raise Violation("result depends on the number of calls", calls=i, input=s, mode=m, got=short(got), want=short(expect[s, m]))
        if not i % 40 and time.time() > end:
            break
    mon.maximum("calls_on_one", i)
    mon.count("used_many_times")


def case(rng, mon):
    first = not getattr(mon, "c08", False)
    mon.c08 = True
    if first or rng.random() < 0.02:
        return elsewhere(rng, mon)
    mon.c08_cases = getattr(mon, "c08_cases", 0) + 1
    if mon.c08_cases == 1 or rng.random() < 0.015:
        return many(rng, mon)
    n = rng.choice([1, 2, 2, 3])
    cfgs = []
    if rng.random() < 0.4:
        base = c06.config(rng)  # many on-match rules over few tokens
    else:
        base = gen.config(rng, gen.Opts(min_rules=2, metadata=0.1, big=0.0, total=0.6))
    cfgs.append(base)
    for _ in range(n - 1):
        x = rng.random()
        if x < 0.25:
            cfgs.append(gen.twin(rng, base))
        elif x < 0.4:
            # a sibling over the same tokens, in other classes
            c = gen.direct(base)
            names = sorted(c["tokens"])
            of = [list(c["tokens"][t]) for t in names]
            rng.shuffle(of)
            c["tokens"] = dict(zip(names, of))
            w = c["whitespace"]
            if w["token_class"] not in c["tokens"][w["default"]]:
                c["tokens"][w["default"]].append(w["token_class"])
            cfgs.append(c)
        elif x < 0.7:
            # a sibling over the same tokens, with other rules
            c = gen.direct(base)
            for i, r in enumerate(c["rules"]):
                r["production"] = "S%d;" % i
            if len(c["rules"]) > 1 and rng.random() < 0.7:
                del c["rules"][rng.randrange(len(c["rules"]))]
            if rng.random() < 0.3:
                c["whitespace"]["consolidate"] = not c["whitespace"]["consolidate"]
            cfgs.append(c)
        else:
            cfgs.append(gen.config(rng, gen.Opts(min_rules=1, metadata=0.1, big=0.0)))
    mon.current = {"cfgs": cfgs}
    mems = [gen.members(c) for c in cfgs]
    models = [ref.Model(c) for c in cfgs]
    # inputs used again and again, also prefixes and extensions of one another
    pools = []
    for c, m in zip(cfgs, mems):
        p = [gen.text(rng, c, mem=m, errors=0.35, long=0.0) for _ in range(rng.choice([3, 5, 9]))]
        p.append(p[0] + p[1])
        p.append(p[0][: len(p[0]) // 2])
        pools.append(p)
    # equally specific rules may be tried in another order in one made from another
    ties = [any(m.run(x)["ties"] for x in p) for m, p in zip(models, pools)]
    # expected: each result from a fresh transliterator that did nothing else
    expect = {}
    for k, c in enumerate(cfgs):
        for s in pools[k]:
            for mode in (False, True):
                expect[k, s, mode] = record(build(c, ignore_errors=mode), s)
                # what a new one says may itself come from what was done in this process before
                want = demanded(models[k], s, mode)
                mon.count("demands")
                if want is not None and expect[k, s, mode][0] != want and getattr(mon, "c08_alone", 0) < 8:
                    mon.c08_alone = getattr(mon, "c08_alone", 0) + 1
                    there = alone(c, s, mode)
                    if there is not None and there != expect[k, s, mode][0]:
                        raise Violation("a new transliterator gives another result than in a process of its own", cfg=short(gen.direct(c), 3000), input=s, mode=mode,
                                        got=short(expect[k, s, mode][0]), there=short(there))
    gts = [build(c) for c in cfgs]
    of = list(range(len(gts)))  # which configuration each one has
    modes = [False] * len(gts)
    last = [None] * len(gts)
    ops = []
    mon.current["ops"] = ops
    mon.count("histories")
    for _ in range(rng.choice([30, 30, 45])):
        k = rng.randrange(len(gts))
        gt = gts[k]
        x = rng.random()
        s = gen.pick(rng, pools[of[k]])
        if x < 0.55:
            ops.append((k, "transliterate", s, modes[k]))
            got = record(gt, s)
            want = expect[of[k], s, modes[k]]
            mon.count("transliterations")
            if got != want:
                raise Violation("result depends on earlier calls", transliterator=k, input=s, mode=modes[k],
                                got=short(got), want=short(want), history=short(ops, 3000))
            if got[0][0] == "ok":
                last[k] = got
            else:
                last[k] = None
                mon.count("failures")
        elif x < 0.63:
            ops.append((k, "tokenize", s))
            outcome(gt.tokenize, s)
        elif x < 0.70:
            toks = gen.framed_seq(rng, cfgs[of[k]], 5, mems[of[k]])
            i = rng.randrange(len(toks))
            ops.append((k, "match_at", toks, i))
            a = gt.match_at(i, list(toks))
            al = gt.match_at(i, list(toks), match_all=True)
            rules = rule_set(gt)
            best = [models[of[k]].rules[b] for b in models[of[k]].best(toks, i)]
            if (a is None) != (not best) or (a is not None and rules[a] not in best):
                raise Violation("match depends on earlier calls", tokens=toks, position=i, got=a, history=short(ops, 3000))
            if len(al) != len(models[of[k]].applicable(toks, i)):
                raise Violation("all matches depend on earlier calls", tokens=toks, position=i, got=al, history=short(ops, 3000))
        elif x < 0.76:
            ops.append((k, "dump"))
            gt.dumps(rng.randrange(3))
        elif x < 0.82:
            ops.append((k, "prune"))
            p = gt.pruned_of([r.production for r in gt.rules[:2]])
            outcome(p.transliterate, s)
            mon.count("prunings")
        elif x < 0.85 and len(gts) < 5 and not ties[of[k]]:
            # one made from this one, of the same configuration and error mode
            how = rng.randrange(4)
            if how == 0:
                new = gt.pruned_of([])
            elif how == 1:
                new = G.load(gt.dump(rng.randrange(3)))
            elif how == 2:
                new = G.loads(gt.dumps(rng.randrange(3)))
            else:
                new = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, graph=gt.graph, ignore_errors=modes[k],
                                             check_ambiguity=False, onmatch_rules_lookup=gt.onmatch_rules_lookup, tokens_by_class=gt.tokens_by_class)
            ops.append((k, "derive", how))
            gts.append(new)
            of.append(of[k])
            modes.append(modes[k])
            last.append(None)
            mon.count("derived")
        elif x < 0.92:
            modes[k] = not modes[k]
            gt.ignore_errors = modes[k]
            ops.append((k, "ignore_errors", modes[k]))
        else:
            ops.append((k, "properties"))
            for name in ("rules", "tokens", "productions", "graph", "onmatch_rules", "tokens_by_class", "metadata", "whitespace", "tokenizer_pattern", "onmatch_rules_lookup"):
                getattr(gt, name)
        # details of the last successful call stay until the next call on that transliterator
        for j, g in enumerate(gts):
            if last[j] is not None:
                now = (list(g.last_input_tokens), [ref.rule(y) for y in g.last_matched_rules], [list(y) for y in g.last_matched_rule_tokens])
                # tokenizing/matching/pruning/dumping is not a transliteration
                if now != last[j][2:]:
                    raise Violation("last-match details changed without a transliteration", transliterator=j,
                                    got=short(now), want=short(last[j][2:]), history=short(ops, 3000))
                mon.count("details_checked")
    mon.feature(len(gts), tuple((o[0], o[1]) for o in ops[:12]))
    mon.feature(tuple((o[0], o[1], o[-1] if o[1] in ("transliterate", "ignore_errors") else 0) for o in ops))
    mon.sample({"ops": short(ops, 400)})
