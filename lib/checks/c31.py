"""C31: equivalent configurations transliterate alike."""
import copy
import itertools

from base import G, LOG, Violation, short
import gen
import ref
from util import build, outcome, cfg_shape

ID = "C31"
PARTS = ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")


def fresh(cfg, base):
    used = {c for cs in cfg["tokens"].values() for c in cs} | {cfg["whitespace"]["token_class"]}
    n = 0
    while "%s%d" % (base, n) in used:
        n += 1
    return "%s%d" % (base, n)


def fresh_tokens(cfg, k, start=0xE800):
    out = []
    cp = start
    while len(out) < k:
        if chr(cp) not in cfg["tokens"]:
            out.append(chr(cp))
        cp += 1
    return out


def rename_classes(cfg, names):
    cfg["tokens"] = {t: [names.get(c, c) for c in cs] for t, cs in cfg["tokens"].items()}
    for r in cfg["rules"] + (cfg.get("onmatch_rules") or []):
        for k in ("prev_classes", "next_classes"):
            if r.get(k):
                r[k] = [names.get(c, c) for c in r[k]]
    cfg["whitespace"]["token_class"] = names.get(cfg["whitespace"]["token_class"], cfg["whitespace"]["token_class"])


# Each changes the configuration and returns a short description of how, or None
# if it does not apply. `tmap` maps original tokens to those of the configuration.


def shuffled(rng, cfg, tmap):
    for k in ("tokens", "whitespace"):
        items = list(cfg[k].items())
        rng.shuffle(items)
        cfg[k] = dict(items)
    for cs in cfg["tokens"].values():
        rng.shuffle(cs)
    rng.shuffle(cfg["rules"])
    for n, r in enumerate(cfg["rules"]):
        items = list(r.items())
        rng.shuffle(items)
        cfg["rules"][n] = dict(items)
    items = list(cfg.items())
    rng.shuffle(items)
    cfg.clear()
    cfg.update(items)
    return "order"


def sorted_(rng, cfg, tmap):
    rev = rng.random() < 0.5
    cfg["tokens"] = {t: sorted(cs, reverse=rev) for t, cs in sorted(cfg["tokens"].items(), reverse=rev)}
    cfg["rules"].sort(key=lambda r: [list(r.get(k) or []) for k in PARTS], reverse=rev)
    return "sorted"


def classes_renamed(rng, cfg, tmap):
    used = sorted({c for cs in cfg["tokens"].values() for c in cs})
    if rng.random() < 0.3:
        # the same names, exchanged
        other = list(used)
        rng.shuffle(other)
    else:
        pool = ["k%d" % i for i in range(len(used))] + list(cfg["tokens"]) + ["\u0915%d" % i for i in range(len(used))]
        if rng.random() < 0.5:
            # names that something might take for its own
            forms = ["_%d", "__%d", "__%d__", "%d", "K%d", "c-%d", "<%d>", " %d", "%d ", "(%d)", "+%d", "<%d", "%d.0", "a b%d", "None%d", "\n%d", "#%d", "!%d", "*%d"]
            pool = [gen.pick(rng, forms) % i for i in range(2 * len(used))]
            pool += rng.sample(["wb", "WB", "rules", "__rules__", "token", "tokens", "prev_classes", "None", "default", "_", "__", " ", "<>", "+", "class", "\u00e9", "e\u0301", "start", "rule", "0", "whitespace"], 6)
        pool = [x for x in dict.fromkeys(pool)]
        other = rng.sample(pool, len(used))
    rename_classes(cfg, dict(zip(used, other)))
    return "classes renamed"


def tokens_renamed(rng, cfg, tmap):
    toks = list(cfg["tokens"])
    if len(toks) > 2000:
        return None
    names = fresh_tokens(cfg, len(toks), 0xE000)
    if rng.random() < 0.5:
        # ones that mean something in a pattern, to a reader of lines or to a format
        other = [ch for ch in gen.NASTY_CHARS if ch not in tmap["\0texts"]]
        if len(other) >= len(toks):
            names = rng.sample(other, len(toks))
    rng.shuffle(names)
    m = dict(zip(toks, names))
    cfg["tokens"] = {m[t]: cs for t, cs in cfg["tokens"].items()}
    for r in cfg["rules"]:
        for k in ("prev_tokens", "tokens", "next_tokens"):
            if r.get(k):
                r[k] = [m[t] for t in r[k]]
    cfg["whitespace"]["default"] = m[cfg["whitespace"]["default"]]
    for t in tmap:
        if t != "\0texts":
            tmap[t] = m[tmap[t]]
    return "tokens renamed"


def rule_spelled_out(rng, cfg, tmap):
    mem = gen.members(cfg)
    cands = []
    for n, r in enumerate(cfg["rules"]):
        for side in ("prev", "next"):
            cs = r.get(side + "_classes")
            if cs:
                size = 1
                for c in cs:
                    size *= len(mem[c])
                if size <= 24:
                    cands.append((n, side))
    if not cands:
        return None
    n, side = gen.pick(rng, cands)
    r = cfg["rules"].pop(n)
    out = []
    for combo in itertools.product(*[sorted(set(mem[c])) for c in r[side + "_classes"]]):
        new = {k: copy.copy(v) for k, v in r.items() if k != side + "_classes"}
        old = list(r.get(side + "_tokens") or [])
        new[side + "_tokens"] = list(combo) + old if side == "prev" else old + list(combo)
        out.append(new)
    cfg["rules"][n:n] = out
    return "class spelled out"


def onmatch_spelled_out(rng, cfg, tmap):
    om = cfg.get("onmatch_rules")
    if not om:
        return None
    mem = gen.members(cfg)
    n = rng.randrange(len(om))
    side = rng.choice(["prev_classes", "next_classes"])
    k = rng.randrange(len(om[n][side]))
    toks = sorted(set(mem[om[n][side][k]]))
    if len(toks) > 12:
        return None
    rng.shuffle(toks)
    out = []
    for t in toks:
        c = fresh(cfg, "only")
        cfg["tokens"][t] = cfg["tokens"][t] + [c]
        new = copy.deepcopy(om[n])
        new[side][k] = c
        out.append(new)
    om[n:n + 1] = out
    return "on match class spelled out"


def class_doubled(rng, cfg, tmap):
    used = sorted({c for cs in cfg["tokens"].values() for c in cs})
    c = gen.pick(rng, used)
    new = fresh(cfg, "twin")
    for t, cs in cfg["tokens"].items():
        if c in cs:
            cs.insert(rng.randrange(len(cs) + 1), new)
    for r in cfg["rules"] + (cfg.get("onmatch_rules") or []):
        for k in ("prev_classes", "next_classes"):
            if r.get(k):
                r[k] = [new if x == c and rng.random() < 0.5 else x for x in r[k]]
    if cfg["whitespace"]["token_class"] == c and rng.random() < 0.5:
        cfg["whitespace"]["token_class"] = new
    return "class doubled"


def unreached(rng, cfg, tmap):
    """Tokens that are in no input, and rules that need them."""
    new = fresh_tokens(cfg, rng.randrange(1, 4), 0xF000)
    c = fresh(cfg, "unreached")
    used = sorted({x for cs in cfg["tokens"].values() for x in cs})
    old = list(cfg["tokens"])
    for t in new:
        cfg["tokens"][t] = [c] + [x for x in used if rng.random() < 0.4]
        if rng.random() < 0.5:
            # a longer one beginning with it
            cfg["tokens"][t + gen.pick(rng, old)] = [c]
    items = list(cfg["tokens"].items())
    if rng.random() < 0.5:
        rng.shuffle(items)
        cfg["tokens"] = dict(items)
    for i in range(rng.randrange(0, 5)):
        base = copy.deepcopy(gen.pick(rng, cfg["rules"])) if cfg["rules"] else {"tokens": [gen.pick(rng, old)]}
        base["production"] = "UNREACHED"
        k = gen.pick(rng, PARTS)
        base.setdefault(k, [])
        base[k] = list(base[k] or [])
        base[k].insert(rng.randrange(len(base[k]) + 1), c if k.endswith("classes") else gen.pick(rng, new))
        cfg["rules"].insert(rng.randrange(len(cfg["rules"]) + 1), base)
    if rng.random() < 0.5:
        om = cfg.setdefault("onmatch_rules", [])
        for i in range(rng.randrange(1, 3)):
            o = {"prev_classes": [gen.pick(rng, used) for _ in range(rng.randrange(1, 3))], "next_classes": [gen.pick(rng, used) for _ in range(rng.randrange(1, 3))],
                 "production": "UNREACHED"}
            k = rng.choice(["prev_classes", "next_classes"])
            o[k][rng.randrange(len(o[k]))] = c
            om.insert(rng.randrange(len(om) + 1), o)
    if rng.random() < 0.3:
        # and a class nothing requires
        d = fresh(cfg, "unused")
        for t in cfg["tokens"]:
            if rng.random() < 0.5:
                cfg["tokens"][t] = cfg["tokens"][t] + [d]
    return "unreached added"


def said_otherwise(rng, cfg, tmap):
    """Parts that are empty, given as empty, null or not at all; metadata."""
    for r in cfg["rules"]:
        for k in PARTS:
            if k != "tokens" and not r.get(k):
                x = rng.random()
                r.pop(k, None)
                if x < 0.3:
                    r[k] = []
                elif x < 0.6:
                    r[k] = None
    if not cfg.get("onmatch_rules"):
        cfg.pop("onmatch_rules", None)
        if rng.random() < 0.5:
            cfg["onmatch_rules"] = []
    cfg.pop("metadata", None)
    if rng.random() < 0.5:
        cfg["metadata"] = gen.gen_metadata(rng)
    return "empty parts"


def weaker_twin(rng, cfg, tmap):
    """A rule of exactly the same conditions as another, and a more specific one never reached, are no change to inputs the first decides."""
    if not cfg.get("onmatch_rules"):
        return None
    # an on match rule repeated further down never applies
    om = cfg["onmatch_rules"]
    n = rng.randrange(len(om))
    o = copy.deepcopy(om[n])
    o["production"] = "LATER"
    if rng.random() < 0.6:
        k = rng.choice(["prev_classes", "next_classes"])
        used = sorted({x for cs in cfg["tokens"].values() for x in cs})
        o[k] = ([gen.pick(rng, used)] + o[k]) if k == "prev_classes" else o[k] + [gen.pick(rng, used)]
    om.insert(rng.randrange(n + 1, len(om) + 1), o)
    return "on match rule shadowed"


CHANGES = [shuffled, sorted_, classes_renamed, tokens_renamed, rule_spelled_out, rule_spelled_out, onmatch_spelled_out, class_doubled, unreached, unreached, said_otherwise, weaker_twin]


def record(gt, s, back):
    LOG.take()
    r = outcome(gt.transliterate, s)
    n = len(LOG.warnings())
    if r[0] != "ok":
        return (r, n)
    return (r, n, [back.get(t, t) for t in gt.last_input_tokens],
            [(x.production, [back.get(t, t) for t in x.tokens], sum(len(getattr(x, k) or []) for k in PARTS)) for x in gt.last_matched_rules])


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=1, context=rng.choice([0.25, 0.5]), big=0.01, fanout=0.005, onmatch=0.6, maxtokens=rng.choice([3, 6, 12])))
    for t in cfg["tokens"]:
        if any("\ue000" <= ch <= "\uf8ff" for ch in t):
            return
    for n, r in enumerate(cfg["rules"]):
        if rng.random() < 0.7:
            r["production"] = "%d;" % n
    model = ref.Model(cfg)
    mem = gen.members(cfg)
    texts = []
    for _ in range(8):
        s = gen.text(rng, cfg, mem=mem, errors=0.25, long=0.003)
        if not model.run(s)["ties"]:
            texts.append(s)
    mon.current = {"cfg": cfg, "texts": texts}
    if not texts:
        return
    base = {m: build(cfg, ignore_errors=m) for m in (False, True)}
    want = {(s, m): record(base[m], s, {}) for s in texts for m in base}
    mon.count("configs")
    mon.feature(cfg_shape(cfg))
    for _ in range(3):
        other = copy.deepcopy(cfg)
        tmap = {t: t for t in cfg["tokens"]}
        tmap["\0texts"] = "".join(texts)
        done = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            d = gen.pick(rng, CHANGES)(rng, other, tmap)
            if d:
                done.append(d)
        if not done:
            continue
        mon.current["other"] = other
        mon.current["changes"] = done
        x = rng.random()
        got = {}
        for m in (False, True):
            g = build(other, ignore_errors=m)
            if x < 0.2:
                g = G.loads(g.dumps(rng.randrange(3)))
            elif x < 0.3:
                g = G.load(g.dump(rng.randrange(3)))
            got[m] = g
        back = {v: k for k, v in tmap.items() if k != "\0texts"}
        for s in texts:
            s2 = "".join(s[p] if t is None else tmap[t] for t, p in model.raw_tokens(s)) if "tokens renamed" in done else s
            for m in (False, True):
                r = record(got[m], s2, back)
                if r != want[s, m]:
                    raise Violation("an equivalent configuration transliterates otherwise", changes=done, input=s, input_to_other=s2, ignore_errors=m, got=short(r), want=short(want[s, m]))
                mon.count("comparisons")
                mon.count("outputs" if r[0][0] == "ok" else "errors")
                if r[0][0] == "ok" and r[0][1] and len(r[3]) > 1:
                    mon.count("several_rules_matched")
        for d in done:
            mon.count("change " + d)
        mon.feature(tuple(sorted(done)), len(cfg["rules"]), len(cfg.get("onmatch_rules") or []))
    mon.sample({"changes": done, "texts": short(texts, 200)})
