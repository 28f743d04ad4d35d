"""C05: the output is the productions of the matched rules tiling the input in order."""
from base import G, Violation, short
import gen
import ref
from util import build, in_any_order, outcome, cfg_shape

ID = "C05"


def check_trace(gt, model, s, output, mon, lenient=False):
    """Offline checker over the reported trace of the last (successful) call."""
    want_toks, bad = model.tokenize(s)
    toks = list(gt.last_input_tokens)
    if toks != want_toks:
        raise Violation("reported tokens are not the input's tokens", input=s, got=short(toks), want=short(want_toks))
    matched = [ref.rule(r) for r in gt.last_matched_rules]
    mtoks = [list(t) for t in gt.last_matched_rule_tokens]
    if mtoks != [list(r.t) for r in matched]:
        raise Violation("tokens of matched rules are not those of the rules", input=s, got=short(mtoks), rules=short(matched))
    i = 1
    n = 0
    pos = 0
    while i < len(toks) - 1:
        best = model.best(toks, i)
        if not best:
            if not lenient:
                raise Violation("transliterated though no rule fits", input=s, position=i, tokens=short(toks))
            i += 1
            continue
        if n >= len(matched):
            raise Violation("matched rules end before the input does", input=s, position=i, tokens=short(toks), matched=short(matched))
        r = matched[n]
        if r not in [model.rules[b] for b in best]:
            raise Violation("reported rule is not a most specific one at its position", input=s, position=i,
                            tokens=short(toks), got=r, want=short([model.rules[b] for b in best]))
        k = model.onmatch_at(toks, i)
        pieces = []
        if k is not None:
            pieces.append(model.onmatch[k][2] + r.prod)
            mon.count("insertions")
        else:
            pieces.append(r.prod)
        for p in pieces:
            if output.startswith(p, pos):
                pos += len(p)
                break
        else:
            raise Violation("output does not continue with the matched production", input=s, position=i, output=short(output),
                            at=pos, want=pieces, tokens=short(toks))
        i += len(r.t)
        n += 1
        if len(r.t) > 1:
            mon.count("multi_token_steps")
    if n != len(matched):
        raise Violation("more rules reported than the input holds", input=s, matched=short(matched), used=n)
    if pos != len(output):
        raise Violation("output has more than the productions", input=s, output=short(output), rest=short(output[pos:]))
    mon.count("traces")
    mon.count("steps", n)
    mon.maximum("steps", n)
    mon.feature(tuple(len(r.t) for r in matched[:12]), n, tuple(bool(r.pc or r.pt or r.nt or r.nc) for r in matched[:12]))


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=2, total=0.92, ws_rule=0.95, context=0.3, metadata=0.1))
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    if rng.random() < 0.2:
        gt = G.loads(gt.dumps(rng.randrange(3)))
    elif rng.random() < 0.15:
        gt = in_any_order(rng, gt)
    mon.count("configs")
    mem = gen.members(cfg)
    long = 0.015 if len(cfg["rules"]) < 60 else 0.0
    for _ in range(8):
        s = gen.text(rng, cfg, mem=mem, long=long)
        mon.current["input"] = s
        r = outcome(gt.transliterate, s)
        if r[0] != "ok":
            run = model.run(s)
            if not run["bad"] and not run["nomatch"] and not run["ties"]:
                raise Violation("input was refused though rules cover it", input=s, got=r)
            mon.count("refused")
            continue
        check_trace(gt, model, s, r[1], mon)
    mon.sample({"cfg": short(cfg, 300), "input": short(s, 120), "result": short(r, 120)})


def probe_long(rng, mon):
    """Thousands of tokens in one input."""
    cfg = gen.config(rng, gen.Opts(styles=[("ascii", 1)], maxtokens=4, min_rules=6, nrules=8, total=1.0, ws_rule=1.0, big=0))
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg)
    s = gen.text(rng, cfg, n=rng.randrange(6000, 20000))
    r = outcome(gt.transliterate, s)
    if r[0] == "ok":
        check_trace(gt, model, s, r[1], mon)
    else:
        run = model.run(s)
        if not run["bad"] and not run["nomatch"] and not run["ties"]:
            raise Violation("a long input was refused though rules cover it", length=len(s), got=r)


PROBES = [probe_long]
