"""C04: whitespace consolidation."""
from base import G, Violation, short
import gen
import ref
from util import build, outcome, cfg_shape

ID = "C04"


def ws_text(rng, cfg, model):
    """Words and runs of whitespace of every make-up."""
    ws = [t for t in cfg["tokens"] if model.is_ws(t)]
    words = [t for t in cfg["tokens"] if not model.is_ws(t)] or ws
    parts = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
        if rng.random() < 0.55:
            for _ in range(rng.choice([1, 1, 2, 3, 7])):
                parts.append(gen.pick(rng, ws))
        for _ in range(rng.choice([0, 1, 1, 2])):
            parts.append(gen.pick(rng, words))
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 5])):
            parts.append(gen.pick(rng, ws))
    if rng.random() < 0.02:
        parts.insert(rng.randrange(len(parts) + 1), gen.pick(rng, ws) * 300)
    return "".join(parts)


def case(rng, mon):
    o = gen.Opts(maxtokens=5, maxrules=4, onmatch=0.2, metadata=0.1, ws_multi=0.75, total=0.8,
                 consolidate=rng.random() < 0.75, big=0.01)
    cfg = gen.config(rng, o)
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    ign = rng.random() < 0.3
    gt = build(cfg, ignore_errors=ign)
    if rng.random() < 0.2:
        gt = G.loads(gt.dumps(rng.randrange(3)))
    mon.count("configs")
    for _ in range(14):
        s = ws_text(rng, cfg, model)
        if ign and rng.random() < 0.3 and s:
            p = rng.randrange(len(s) + 1)
            s = s[:p] + "\u2603" + s[p:]
        mon.current["input"] = s
        raw = [t for t, _ in model.raw_tokens(s)]
        if None in raw and not ign:
            continue
        raw = [t for t in raw if t is not None]
        want = [model.default] + model.consolidated(raw) + [model.default]
        got = outcome(gt.tokenize, s)
        if got != ("ok", want):
            raise Violation("whitespace of the input is not treated as configured", input=s, consolidate=model.consolidate,
                            got=short(got), want=short(want))
        mon.count("inputs")
        flags = tuple(model.is_ws(t) for t in raw)
        # longest run and position
        run = 0
        runs = 0
        for f in flags:
            run = run + 1 if f else 0
            if run == 2:
                runs += 1
            mon.maximum("run", run)
        mon.count("runs_of_two_or_more", runs)
        if any(flags):
            mon.feature(model.consolidate, flags[:16], tuple(t == model.default for t in raw if model.is_ws(t))[:8])
        # the same through transliteration
        r = outcome(gt.transliterate, s)
        if r[0] == "ok" and list(gt.last_input_tokens) != want:
            raise Violation("transliteration used other tokens", input=s, got=short(gt.last_input_tokens), want=short(want))
        if model.consolidate:
            mon.count("consolidated_inputs")
        else:
            mon.count("unconsolidated_inputs")
    mon.sample({"tokens": short(cfg["tokens"], 200), "ws": cfg["whitespace"], "input": short(s, 100)})
