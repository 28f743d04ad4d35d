"""C03: tokenization is greedy longest-first, lossless and framed."""
from base import Violation, short
import gen
import ref
from util import build, outcome, cfg_shape

ID = "C03"


def opts(rng):
    return gen.Opts(maxrules=2, onmatch=0.05, total=0.1, metadata=0.1, big=0.08, maxtokens=24, longtokens=0.15,
                    consolidate=False if rng.random() < 0.75 else None, ws_multi=0.6,
                    styles=[("ascii", 5), ("uni", 2), ("meta", 2.5), ("digits", 1.5), ("words", 1.5), ("space", 2), ("case", 2), ("json", 1.5), ("mixed", 2), ("wide", 0.7)])


def fresh(rng, cfg):
    """Half of the inputs are not made of tokens: characters of tokens, shuffled."""
    chars = sorted({ch for t in cfg["tokens"] for ch in t})
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 80])
    s = "".join(gen.pick(rng, chars) for _ in range(n))
    longest = max(cfg["tokens"], key=len)
    if len(longest) > 9 and rng.random() < 0.7:
        # cut from repetitions of long tokens, one character replaced
        s = "".join(gen.pick(rng, [t for t in cfg["tokens"] if len(t) > 8] + chars) for _ in range(n % 9 + 1))
        k = rng.randrange(len(s))
        s = s[:k] + gen.pick(rng, chars) + s[k + rng.randrange(2):]
    if rng.random() < 0.1:
        s = s.swapcase()
    return s


def check(gt, model, s, mon):
    want, bad = model.tokenize(s)
    got = outcome(gt.tokenize, s)
    mon.count("inputs")
    if bad and not gt.ignore_errors:
        if got != ("error", "UnrecognizableInputTokenException"):
            raise Violation("unrecognizable input was tokenized", input=s, got=short(got), bad=bad)
        mon.count("unrecognizable")
        return
    if got[0] != "ok":
        raise Violation("tokenizable input was refused", input=s, got=short(got), want=short(want))
    toks = got[1]
    if toks[:1] != [model.default] or toks[-1:] != [model.default] or len(toks) < 2:
        raise Violation("not framed by the default whitespace token", input=s, got=short(toks))
    if list(toks) != want:
        raise Violation("tokens are not the greedy longest ones", input=s, got=short(toks), want=short(want))
    if not model.consolidate and not bad and "".join(toks[1:-1]) != s:
        raise Violation("characters of the input were lost", input=s, got=short(toks))
    mon.count("tokens", len(toks) - 2)
    mon.maximum("input_length", len(s))
    if len(toks) > 2:
        mon.feature(tuple(len(t) for t in toks[:14]), len(toks))


def case(rng, mon):
    cfg = gen.config(rng, opts(rng))
    mon.current = {"cfg": cfg}
    model = ref.Model(cfg)
    gt = build(cfg, ignore_errors=rng.random() < 0.3)
    mon.count("configs")
    mon.feature(cfg_shape(cfg)[0], tuple(sorted(map(len, cfg["tokens"])))[:20])
    mem = gen.members(cfg)
    for k in range(14):
        s = fresh(rng, cfg) if k % 2 else gen.text(rng, cfg, errors=0.2, mem=mem)
        mon.current["input"] = s
        check(gt, model, s, mon)
    mon.sample({"tokens": short(list(cfg["tokens"]), 200), "input": short(s, 120)})


def probe_every_char(rng, mon):
    """A vocabulary of every printable ASCII character, its doubles, and line breaks."""
    toks = {chr(c): [] for c in range(1, 0x250)}
    for c in range(33, 127):
        toks[chr(c) * 2] = []
        toks[chr(c) + "\n"] = []
        toks["\\" + chr(c)] = []
    toks[" "] = ["wb"]
    cfg = {"tokens": toks, "rules": [{"production": "x", "tokens": ["a"]}],
           "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    mon.current = {"cfg": "every character"}
    model = ref.Model(cfg)
    gt = build(cfg)
    for _ in range(40):
        s = "".join(gen.pick(rng, list(toks)) for _ in range(60))
        mon.current["input"] = s
        check(gt, model, s, mon)


PROBES = [probe_every_char]
