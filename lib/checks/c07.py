"""C07: strict errors and lenient skipping."""
import re

from base import G, LOG, Violation, short
import gen
import ref
from util import build, outcome
from checks.c05 import check_trace

ID = "C07"


def warnings_of(func, *args):
    LOG.take()
    r = outcome(func, *args)
    return r, [w for w in LOG.warnings()]


def located(w, s, bad, nomatch):
    """Each warning says where: unrecognizable characters in the input, then unmatched tokens."""
    said = [x.getMessage() for x in w]
    for m, (what, pos) in zip(said, [(s[p], p) for p in bad] + [("", p) for p in nomatch]):
        at = m.rfind(s)
        rest = m if at < 0 else m[:at] + m[at + len(s):]  # apart from the input in it
        if what not in rest or not re.search(r"(?<![0-9])%d(?![0-9])" % pos, m):
            raise Violation("a warning does not say which character or token is meant", input=s, warning=short(m), position=pos, character=what)


def strict(gt, model, s, mon):
    toks, bad = model.tokenize(s)
    r, w = warnings_of(gt.tokenize, s)
    if bad:
        if r != ("error", "UnrecognizableInputTokenException"):
            raise Violation("tokenizing unrecognizable input in strict mode did not raise", input=s, got=short(r), bad=bad)
        if len(w) < 1:
            raise Violation("unrecognizable input was not logged", input=s)
        located(w, s, bad[:1], [])
    elif r != ("ok", toks):
        raise Violation("tokenizing recognizable input failed or differs", input=s, got=short(r), want=short(toks))
    r, w = warnings_of(gt.transliterate, s)
    if bad:
        mon.count("strict_unrecognizable")
        if r != ("error", "UnrecognizableInputTokenException"):
            raise Violation("unrecognizable input in strict mode did not raise its error", input=s, got=short(r), bad=bad)
        if len(w) < 1:
            raise Violation("unrecognizable input was not logged", input=s)
        return
    run = model.run(s)
    if run["ties"]:
        mon.count("undecided_ties")
        return
    if run["nomatch"]:
        mon.count("strict_no_match")
        if r != ("error", "NoMatchingTransliterationRuleException"):
            raise Violation("an unmatched token in strict mode did not raise its error", input=s, got=short(r), at=run["nomatch"])
        if len(w) < 1:
            raise Violation("unmatched token was not logged", input=s)
        located(w, s, [], run["nomatch"][:1])
    else:
        mon.count("strict_ok")
        if r != ("ok", run["output"]):
            raise Violation("error-free input differs in strict mode", input=s, got=short(r), want=short(run["output"]))
        if w:
            raise Violation("a warning was logged for an error-free input", input=s, warnings=[x.getMessage() for x in w])


def lenient(gt, model, s, mon):
    toks, bad = model.tokenize(s)
    r, w = warnings_of(gt.tokenize, s)
    if r != ("ok", toks):
        raise Violation("lenient tokenization is not the input without its unrecognizable characters", input=s, got=short(r), want=short(toks))
    if len(w) != len(bad):
        raise Violation("not one warning for each unrecognizable character", input=s, warnings=len(w), bad=bad)
    r, w = warnings_of(gt.transliterate, s)
    if r[0] != "ok":
        raise Violation("an error was raised although errors are ignored", input=s, got=short(r))
    check_trace(gt, model, s, r[1], mon, lenient=True)
    run = model.run(s)
    if not run["ties"]:
        if len(w) != len(bad) + len(run["nomatch"]):
            raise Violation("not one warning for each unrecognizable character and unmatched token", input=s,
                            warnings=[x.getMessage() for x in w][:10], bad=bad, nomatch=run["nomatch"])
        located(w, s, bad, run["nomatch"])
        mon.count("warnings_located", len(w))
        if r[1] != run["output"]:
            raise Violation("lenient output differs", input=s, got=short(r[1]), want=short(run["output"]))
    mon.count("lenient_bad", len(bad))
    mon.count("lenient_no_match", len(run["nomatch"]))
    mon.count("lenient")


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=1, total=0.45, context=0.35, metadata=0.05, big=0.02, ws_rule=0.6))
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    mode = rng.random() < 0.5
    gt = build(cfg, ignore_errors=mode)
    if rng.random() < 0.2:
        gt = G.loads(gt.dumps(rng.randrange(3)))
        if bool(gt.ignore_errors) != mode:
            raise Violation("error mode lost in a dump", want=mode, got=gt.ignore_errors)
    mem = gen.members(cfg)
    mon.count("configs")
    hist = []
    for _ in range(10):
        if rng.random() < 0.35:
            mode = not mode
            gt.ignore_errors = mode
            mon.count("mode_switches")
        s = gen.text(rng, cfg, mem=mem, errors=0.55, long=0.003)
        hist.append((mode, s))
        mon.current["history"] = hist
        if mode:
            lenient(gt, model, s, mon)
        else:
            strict(gt, model, s, mon)
        raw = model.raw_tokens(s)
        errs = [k for k, (t, _) in enumerate(raw) if t is None]
        run = model.run(s)
        mon.feature(mode, len(errs), errs[:4], tuple(run["nomatch"][:4]), len(raw) if len(raw) < 20 else 20)
    mon.sample({"cfg": short(cfg, 250), "history": short(hist[-2:], 200)})


def probe_many(rng, mon):
    """Hundreds of errors in one input."""
    cfg = {"tokens": {"a": ["x"], "b": [], "bb": ["x"], " ": ["wb"]},
           "rules": [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"], "prev_classes": ["x"]}, {"production": "_", "tokens": [" "]}],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    model = ref.Model(cfg)
    gt = build(cfg)
    for n in (30, 130, 300, 700):
        for unit in ("!", "b ", "a!", "bb", "!\u2603", "ab!", "a", "aab\n"):
            s = (unit * n)[: n + len(unit)]
            if rng.random() < 0.3:
                s = "ab " * 40 + s
            mon.current = {"cfg": cfg, "input": s}
            gt.ignore_errors = True
            lenient(gt, model, s, mon)
            gt.ignore_errors = False
            strict(gt, model, s, mon)
            mon.maximum("errors_in_an_input", len(model.tokenize(s)[1]) + len(model.run(s)["nomatch"]))


def probe_late(rng, mon):
    """Errors far into long inputs, in both modes."""
    cfg = {"tokens": {"a": ["x"], "b": [], "cd": ["x"], "n": [], " ": ["wb"]},
           "rules": [{"production": "A", "tokens": ["a"]}, {"production": "B", "tokens": ["b"], "prev_classes": ["x"]}, {"production": "CD", "tokens": ["cd"]}, {"production": "_", "tokens": [" "]}],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    model = ref.Model(cfg)
    gt = build(cfg)
    for n in [rng.randrange(200, 1500) for _ in range(6)] + [rng.randrange(1500, 5000) for _ in range(4)]:
        for bad in ("\u2603", "n", "c", "bb", "!n", "\U0001f600a!"):
            s = "".join(rng.choice(["a", "ab", "cd", "a ", "ccd"[1:], "cdb"]) for _ in range(n)) + bad + "acd" * rng.randrange(3)
            mon.current = {"cfg": cfg, "input": s}
            gt.ignore_errors = True
            lenient(gt, model, s, mon)
            gt.ignore_errors = False
            strict(gt, model, s, mon)
            mon.count("late_errors")


PROBES = [probe_many, probe_late]
