# -*- coding: utf-8 -*-
"""Generators of configurations and inputs (hostile and realistic)."""
import copy
import random
import unicodedata

RESERVED = "__rules__"

ALPHA = {
    "ascii": None,
    "meta": list(".*+?[](){}|^$\\/-#&~,:;!\"'`=@%") + [".*", "a.", "a+", "[a]", "(a)", "a|b", "^a", "a$", "\\d", "\\N", "{1}", "a", "b", "(?", "-a", "--"],
    "uni": ["e", "\u00e9", "e\u0301", "\u0301", "\u00df", "ss", "s", "\u017f", "i", "\u0131", "\u0130", "I", "\U0001d518", "\U0001d519",
            "\u0915", "\u094d", "\u0915\u094d", "\u0915\u094d\u0937", "\u0937", "\u200d", "\u200c", "\ufb01", "fi", "f", "\u212b", "\u00c5",
            "A\u030a", "\u0623", "\u0627", "\u0654", "\u1100", "\u1161", "\uac00", "\u03c3", "\u03c2", "\u03a3", "\ufe0f", "\u2764\ufe0f", "\u2764"],
    "digits": ["0", "1", "10", "-1", "01", "1.0", "00", "11", "-", "2", "12", "100", "."],
    "words": ["the", "then", "them", "a", "an", "and", "in", "ing", "t", "th", "he", "e", "n"],
    "space": ["a", "b", "a b", "a\n", "a\tb", "ab", "b a", "\x0b", "b\r", " a", "a ", "\u2028"],
    "case": ["a", "A", "aA", "Aa", "AA", "aa", "b", "B", "bA", "aB"],
    "json": ['"', "\\", "'", "\x01", "\x7f", "{", "}", "%s", "{}", "{0}", "%", "null", "true", "_", "__", "None", "\\n", "</", "\\u0041", "a", "b", ":", ",", "~"],
}
# single characters that mean something to a pattern, a format or a reader of lines
NASTY_CHARS = list(".*+?[](){}|^$\\/-#&~,:;!\"'`=@%<>_0Aa \t\n\r\x00\x1b\x7f\x85\xa0\xad\u00df\u0130\u0131\u017f\u0301\u0660\u093e\u094d\u1100\u200b\u200d\u2028\u2029\u3000\ufe0f\ufeff\U0001d518")
WS = [" ", "\t", "\n", "  ", "\u00a0", "_", "\u3000", "\r\n", "<sp>", "\u200b", "--"]
CLASSES = ["c1", "c2", "vowel", "consonant", "class_a", "wb2", "\u0938\u094d\u0935\u0930", "c-3", "C1", "c.4", "1", "0", "c11", "c"]
ODD_CLASSES = ["a class", "x+y", "<z>", "", " ", "rules", "token", "cost"]
PRODS = ["", "", "A", "AA", "%s", "{0}", "{}", "\\1", "\\g<0>", "\u0915\u093e", "\U0001d518", "x y", "\n", " ", "None", "0", '"', "'", "<A>", "\u0301",
         "x\ty", "\t", " x", "x ", "\r\n", "a\nb", "\u2028", "\u00e9", "e\u0301", "\ufeff", "\x00", "  ", "# x", "a: b", "yes", "1e3", "\u00a0"]


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def weighted(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def small(rng, mx):
    """1 most of the time, up to mx, occasionally."""
    n = 1
    while n < mx and rng.random() < 0.38:
        n += 1
    return n


def ascii_tokens(rng, n):
    letters = "abc" if rng.random() < 0.6 else "abcdefgh"
    out = set()
    guard = 0
    while len(out) < n and guard < 50 * n:
        guard += 1
        if out and rng.random() < 0.5:
            base = pick(rng, sorted(out))
            if len(base) < 9:
                out.add(base + pick(rng, letters))
                continue
        out.add("".join(pick(rng, letters) for _ in range(small(rng, 4))))
    return sorted(out)


def token_vocab(rng, style, n, long=False):
    if style == "ascii":
        toks = ascii_tokens(rng, n)
    elif style == "wide":
        toks = ["t%d" % i for i in range(n)]
    elif style == "mixed":
        pool = sorted({t for k, v in ALPHA.items() if v for t in v})
        toks = rng.sample(pool, min(n, len(pool)))
    else:
        pool = ALPHA[style]
        toks = rng.sample(pool, min(n, len(pool)))
    if long and toks and style != "wide":
        toks = sorted(set(toks) | set(long_tokens(rng, toks)))
    rng.shuffle(toks)
    return toks


def long_tokens(rng, toks):
    """Tokens of ten to a hundred characters, most of them beginnings of others."""
    chars = [t for t in toks if len(t) == 1] or toks
    few = rng.sample(chars, min(len(chars), 2))
    n = rng.choice([10, 14, 18, 30, 34, 65, 100])
    one = "".join(pick(rng, few) for _ in range(n))
    out = [one]
    for _ in range(rng.randrange(1, 4)):
        x = rng.random()
        if x < 0.7:
            out.append(one[: len(one) - rng.choice([1, 1, 2, 3, 5])])
        elif x < 0.85:
            out.append(one + pick(rng, few))
        else:
            k = rng.randrange(len(one))
            out.append(one[:k] + pick(rng, chars) + one[k + 1:])
    return out


def gen_metadata(rng, depth=0):
    d = {}
    for _ in range(rng.randrange(0, 4)):
        k = pick(rng, ["author", "name", "version", "k1", "\u00e9", "x y", "metadata", "rules"])
        d[k] = gen_value(rng, depth)
    return d


def gen_value(rng, depth=0):
    r = rng.random()
    if r < 0.35 or depth > 2:
        return pick(rng, ["x", "", "1.0", "\u0915", "a\nb", "None", 0, 1, -1, 1.5, True, False, None, 10 ** 12])
    if r < 0.65:
        return [gen_value(rng, depth + 1) for _ in range(rng.randrange(0, 3))]
    return gen_metadata(rng, depth + 1)


class Opts:
    """Knobs of the configuration generator."""

    def __init__(self, **kw):
        self.styles = [("ascii", 5), ("uni", 1.5), ("meta", 1.5), ("digits", 1), ("words", 1), ("space", 1), ("case", 1), ("json", 1), ("mixed", 1), ("wide", 0.4)]
        self.easy = False          # only what the easy-reading notation expresses
        self.maxrules = None
        self.nrules = None
        self.onmatch = 0.5
        self.onmatch_many = 0.1
        self.total = 0.75          # probability of single-token rules for all tokens
        self.dup = 0.15            # exact duplicates of conditions
        self.maxtokens = 14
        self.big = 0.04            # large configurations
        self.unique_prods = 0.6
        self.consolidate = None
        self.context = 0.25
        self.longrule = 0.06
        self.ws_multi = 0.5
        self.metadata = 0.6
        self.min_rules = 0
        self.ws_rule = 0.6
        self.longctx = 0.05        # contexts of 7 to 20 parts
        self.ladder = 0.03         # rules of the same token that require more and more
        self.longtokens = 0.04     # tokens of ten to a hundred characters
        self.fanout = 0.03         # very many rules of the same tokens, or classes in an on-match rule
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def easy_ok_token(t):
    return bool(t) and " " not in t and not any(ch in "()<>" for ch in t)


def easy_ok_class(c):
    return bool(c) and not any(ch.isspace() for ch in c) and not any(ch in "<>+()" for ch in c)


def config(rng, o=None):
    o = o or Opts()
    style = weighted(rng, o.styles)
    big = rng.random() < o.big
    if style == "wide":
        n = rng.choice([12, 40, 120]) if not big else rng.choice([130, 300])
        n = min(n, max(o.maxtokens, 4) * 25)
    else:
        n = rng.randrange(1, o.maxtokens + 1) if rng.random() < 0.6 else rng.randrange(1, 5)
    vocab = token_vocab(rng, style, n, rng.random() < o.longtokens)
    if o.easy:
        vocab = [t for t in vocab if easy_ok_token(t)] or ["a"]
    vocab = [t for t in vocab if t != RESERVED]
    # whitespace
    nws = 1 if rng.random() > o.ws_multi else rng.randrange(2, 5)
    wspool = [w for w in WS if w not in vocab]
    if o.easy:
        wspool = [w for w in wspool if w == " " or easy_ok_token(w)]
    if rng.random() < 0.7 and " " in wspool:
        ws = [" "] + [w for w in rng.sample(wspool, min(nws, len(wspool))) if w != " "][: nws - 1]
    else:
        ws = rng.sample(wspool, min(nws, len(wspool)))
    default = pick(rng, ws)
    wsclass = weighted(rng, [("wb", 5), ("whitespace", 1), ("c1", 0.3), ("\u7a7a", 0.2)])
    # classes
    ncls = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
    pool = list(CLASSES)
    if not o.easy and rng.random() < 0.15:
        pool += ODD_CLASSES
    if rng.random() < 0.1:
        pool += [t for t in vocab if not o.easy or easy_ok_class(t)]
    pool = [c for c in pool if c != wsclass]
    classes = rng.sample(pool, min(ncls, len(pool)))
    tokens = {}
    order = vocab + ws
    rng.shuffle(order)
    dens = rng.choice([0.25, 0.5, 0.8])
    for t in order:
        cs = [c for c in classes if rng.random() < dens]
        if t in ws:
            if rng.random() < 0.75:
                cs = [c for c in cs if rng.random() < 0.3]
            cs.append(wsclass)
        rng.shuffle(cs)
        tokens[t] = cs
    used = sorted({c for cs in tokens.values() for c in cs})
    usable = [c for c in used]
    cfg = {"tokens": tokens}
    # rules
    hot = rng.sample(order, min(len(order), rng.choice([2, 3, 4, 6])))
    rules = []
    if o.nrules is not None:
        nr = o.nrules
    elif big:
        nr = rng.choice([60, 150, 300])
    else:
        nr = weighted(rng, [(0, 0.3), (rng.randrange(1, 4), 2), (rng.randrange(3, 10), 4), (rng.randrange(8, 30), 3)])
    if o.maxrules is not None:
        nr = min(nr, o.maxrules)
    nr = max(nr, o.min_rules)
    uniq = rng.random() < o.unique_prods

    def tok():
        return pick(rng, hot) if rng.random() < 0.8 else pick(rng, order)

    def toklist(mx):
        return [tok() for _ in range(small(rng, mx))]

    def clslist(mx):
        return [pick(rng, usable) for _ in range(small(rng, mx))] if usable else []

    def longlist(mx, of):
        n = rng.randrange(7, mx + 1)
        one = pick(rng, of) if rng.random() < 0.5 else None
        return [one if one is not None and rng.random() < 0.8 else pick(rng, of) for _ in range(n)]

    longctx = rng.random() < 3 * o.longctx
    for i in range(nr):
        r = {}
        x = rng.random()
        if rules and x < 0.5:
            base = pick(rng, rules)["tokens"]
            y = rng.random()
            if y < 0.45:
                t = list(base)
            elif y < 0.8:
                t = list(base) + toklist(2)
            elif len(base) > 1:
                t = list(base[:-1])
            else:
                t = [tok()] + list(base)
        else:
            t = toklist(4)
        if rng.random() < o.longrule:
            t = (t + [tok() for _ in range(rng.randrange(4, 12))])
        r["tokens"] = t[:16]
        mx = 3 if rng.random() < 0.85 else 6
        full = rng.random() < 0.08
        if full or rng.random() < o.context:
            r["prev_classes"] = clslist(mx)
        if full or rng.random() < o.context:
            r["prev_tokens"] = toklist(mx)
        if full or rng.random() < o.context:
            r["next_tokens"] = toklist(mx)
        if full or rng.random() < o.context:
            r["next_classes"] = clslist(mx)
        if longctx and rng.random() < 0.34:
            k = pick(rng, ["prev_classes", "prev_tokens", "next_tokens", "next_classes"])
            of = hot if k.endswith("tokens") else usable
            if of:
                r[k] = longlist(rng.choice([8, 12, 20]), of)
        if rules and rng.random() < o.dup:
            b = pick(rng, rules)
            r = {k: copy.copy(v) for k, v in b.items() if k != "production"}
        r = {k: v for k, v in r.items() if v}
        rules.append(r)
    if rng.random() < o.fanout and nr:
        # many candidates where one path of tokens ends
        base = pick(rng, rules)["tokens"][:3]
        for _ in range(rng.choice([20, 70, 70, 140])):
            r = {"tokens": list(base)}
            for k in rng.sample(["prev_tokens", "next_tokens", "prev_classes", "next_classes"], rng.choice([1, 1, 2])):
                r[k] = ([tok() for _ in range(rng.randrange(1, 5))] if k.endswith("tokens")
                        else [pick(rng, usable) for _ in range(rng.randrange(1, 5))] if usable else [])
            rules.append({k: v for k, v in r.items() if v})
    if rng.random() < o.ladder and nr:
        # rules of the same token, each requiring one more token than the one before
        t = tok()
        n = rng.choice([3, 6, 12, 25, 40, 60])
        rung = {k: 0 for k in ("tokens", "prev_tokens", "next_tokens")}
        rung["tokens"] = 1
        of = [k for k in rung if rng.random() < 0.6] or ["next_tokens"]
        low = rng.randrange(n)
        for k in range(low, n):
            r = {"tokens": 1, "prev_tokens": 0, "next_tokens": 0}
            for _ in range(k):
                r[pick(rng, of)] += 1
            if n > 12 and rng.random() < 0.5:
                continue
            r = {p: [t] * c for p, c in r.items() if c}
            if rng.random() < 0.15 and tokens[t]:
                r["next_classes"] = [pick(rng, tokens[t])] * rng.choice([1, 1, 2])
            rules.append(r)
    if rng.random() < o.total:
        for t in order:
            if t in ws and rng.random() > o.ws_rule:
                continue
            rules.append({"tokens": [t]})
    elif len(rules) < o.min_rules:
        rules.append({"tokens": [pick(rng, order)]})
    rng.shuffle(rules)
    if o.easy:
        rules = easy_filter(rules)
    for i, r in enumerate(rules):
        if uniq:
            r["production"] = "%s%d;" % (pick(rng, ["R", "R", "\u0915", "<", "{"]), i)
        elif rng.random() < 0.5:
            r["production"] = pick(rng, PRODS)
        else:
            r["production"] = "".join(r["tokens"]).upper()
    cfg["rules"] = rules
    # on match rules
    if rng.random() < o.onmatch and usable:
        no = rng.randrange(8, 30) if rng.random() < o.onmatch_many else rng.randrange(1, 6)
        om = []
        for i in range(no):
            if om and rng.random() < 0.3:
                b = pick(rng, om)
                p, nx = list(b["prev_classes"]), list(b["next_classes"])
                if rng.random() < 0.5:
                    p = [pick(rng, usable)] + p
                else:
                    nx = nx + [pick(rng, usable)]
            else:
                p, nx = clslist(4), clslist(4)
                if longctx and rng.random() < 0.4:
                    if rng.random() < 0.5:
                        p = longlist(12, usable)
                    else:
                        nx = longlist(12, usable)
            om.append({"prev_classes": p, "next_classes": nx,
                       "production": pick(rng, ["+%d+" % i, "+%d+" % i, "", ",", "{}", "%s", "\u094d"])})
        cfg["onmatch_rules"] = om
    elif rng.random() < 0.3:
        cfg["onmatch_rules"] = []
    cfg["whitespace"] = {
        "default": default, "token_class": wsclass,
        "consolidate": rng.random() < 0.5 if o.consolidate is None else o.consolidate,
    }
    if rng.random() < o.metadata:
        cfg["metadata"] = gen_metadata(rng)
    return cfg


# --------------------------------------------------------- easy-reading writer


def easy_expressible_rule(r):
    toks = r["tokens"]
    if toks == [" "] and len(r.keys() & {"prev_classes", "prev_tokens", "next_tokens", "next_classes"}) == 0:
        return True
    if not all(easy_ok_token(t) for k in ("tokens", "prev_tokens", "next_tokens") for t in r.get(k) or []):
        return False
    return all(easy_ok_class(c) for k in ("prev_classes", "next_classes") for c in r.get(k) or [])


def easy_key(r, style=0):
    """The documented notation of a rule."""
    pc = " ".join("<%s>" % c for c in r.get("prev_classes") or [])
    nc = " ".join("<%s>" % c for c in r.get("next_classes") or [])
    pt = " ".join(r.get("prev_tokens") or [])
    nt = " ".join(r.get("next_tokens") or [])
    out = ""
    if pc and pt:
        out = "(%s %s) " % (pc, pt)
    elif pc:
        out = pc + " "
    elif pt:
        out = "(%s) " % pt
    out += " ".join(r["tokens"])
    if nc and nt:
        out += " (%s %s)" % (nt, nc)
    elif nc:
        out += " " + nc
    elif nt:
        out += " (%s)" % nt
    return out


def easy_filter(rules):
    seen = set()
    out = []
    for r in rules:
        if not easy_expressible_rule(r):
            continue
        k = easy_key(r)
        if k in seen:
            continue
        seen.add(k)
        out.append(r)
    return out


def easy_settings(cfg):
    """Easy-reading settings of a configuration generated with easy=True."""
    out = {"tokens": copy.deepcopy(cfg["tokens"]),
           "rules": {easy_key(r): r["production"] for r in cfg["rules"]},
           "whitespace": dict(cfg["whitespace"])}
    if cfg.get("onmatch_rules"):
        out["onmatch_rules"] = [
            {" ".join("<%s>" % c for c in o["prev_classes"]) + " + " + " ".join("<%s>" % c for c in o["next_classes"]): o["production"]}
            for o in cfg["onmatch_rules"]
        ]
    if "metadata" in cfg:
        out["metadata"] = copy.deepcopy(cfg["metadata"])
    return out


# ---------------------------------------------------------------------- inputs


def members(cfg):
    out = {}
    for t, cs in cfg["tokens"].items():
        for c in cs:
            out.setdefault(c, []).append(t)
    return out


def instantiate(rng, r, mem):
    out = [pick(rng, mem[c]) for c in r.get("prev_classes") or []]
    out += list(r.get("prev_tokens") or [])
    out += list(r["tokens"])
    out += list(r.get("next_tokens") or [])
    out += [pick(rng, mem[c]) for c in r.get("next_classes") or []]
    return out


def nearly(rng, toks, order):
    """The tokens, one of them replaced, left out or repeated."""
    toks = list(toks)
    if toks:
        i = rng.choice([0, len(toks) - 1, rng.randrange(len(toks)), rng.randrange(len(toks))])
        x = rng.random()
        if x < 0.7:
            toks[i] = pick(rng, order)
        elif x < 0.85:
            del toks[i]
        else:
            toks.insert(i, toks[i])
    return toks


def near_seq(rng, cfg, mem=None):
    """A framed sequence satisfying one rule, or all but one place of it, now
    and then at the very start or end."""
    mem = mem or members(cfg)
    d = cfg["whitespace"]["default"]
    order = list(cfg["tokens"])
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        toks = instantiate(rng, pick(rng, cfg["rules"]), mem) if cfg["rules"] else []
        if rng.random() < 0.6:
            toks = nearly(rng, toks, order)
        out += toks
    x = rng.random()
    if x < 0.2:
        out = out + [pick(rng, order) for _ in range(rng.randrange(4))]
    elif x < 0.4:
        out = [pick(rng, order) for _ in range(rng.randrange(4))] + out
    elif x < 0.6:
        out = [pick(rng, order)] + out + [pick(rng, order)]
    if out and rng.random() < 0.15:
        out = out[1:]
    if out and rng.random() < 0.15:
        out = out[:-1]
    return [d] + out + [d]


def token_seq(rng, cfg, n, mem=None):
    """About n tokens, biased to satisfy the contexts of rules."""
    mem = mem or members(cfg)
    toks = list(cfg["tokens"])
    ws = [t for t in toks if cfg["whitespace"]["token_class"] in cfg["tokens"][t]]
    out = []
    rules = cfg["rules"]
    om = cfg.get("onmatch_rules") or []
    wsp = rng.choice([0.05, 0.15, 0.35])
    while len(out) < n:
        x = rng.random()
        if x < wsp:
            for _ in range(small(rng, 4)):
                out.append(pick(rng, ws))
        elif rules and x < 0.65:
            one = instantiate(rng, pick(rng, rules), mem)
            out += nearly(rng, one, toks) if rng.random() < 0.15 else one
        elif om and x < 0.8:
            o = pick(rng, om)
            one = [pick(rng, mem[c]) for c in o["prev_classes"] + o["next_classes"]]
            out += nearly(rng, one, toks) if rng.random() < 0.15 else one
        else:
            out.append(pick(rng, toks))
        if rng.random() < 0.1 and out:
            out.pop()
    return out[:max(n, 0)]


UNKNOWN = ["!", "\u2603", "Z", "\x00", "\U0001f600", "?", "q", "\u0300", "%", "{", "\\", "\n", " ", "A", "a"]


def length(rng, long=0.02):
    x = rng.random()
    if x < 0.06:
        return 0
    if x < 0.16:
        return 1
    if x < 1 - long:
        return weighted(rng, [(rng.randrange(2, 6), 3), (rng.randrange(5, 16), 3), (rng.randrange(15, 50), 1)])
    return rng.choice([150, 400, 1200])


def text(rng, cfg, n=None, errors=0.0, mem=None, long=0.02):
    """An input string; `errors` = probability that foreign characters are mixed in."""
    if n is None:
        n = length(rng, long)
    toks = token_seq(rng, cfg, n, mem)
    x = rng.random()
    ws = [t for t in cfg["tokens"] if cfg["whitespace"]["token_class"] in cfg["tokens"][t]]
    if x < 0.15:
        toks = [pick(rng, ws) for _ in range(rng.randrange(1, 4))] + toks
    if 0.1 < x < 0.25:
        toks = toks + [pick(rng, ws) for _ in range(rng.randrange(1, 4))]
    if errors and rng.random() < errors:
        k = 1 if rng.random() < 0.5 else rng.randrange(1, 5)
        for _ in range(k):
            p = rng.randrange(len(toks) + 1)
            if rng.random() < 0.3 and toks:
                t = pick(rng, toks)
                bad = t[: rng.randrange(1, len(t) + 1)]
            else:
                bad = pick(rng, UNKNOWN)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                toks.insert(p, bad)
    return "".join(toks)


def framed_seq(rng, cfg, n, mem=None):
    d = cfg["whitespace"]["default"]
    return [d] + token_seq(rng, cfg, n, mem) + [d]


def direct(cfg):
    """A fresh settings dictionary for from_dict."""
    return copy.deepcopy(cfg)


def twin(rng, cfg):
    """A configuration that differs in little from another: one that something remembered of the other by too few signs would fit."""
    c = direct(cfg)
    w = c["whitespace"]
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.randrange(8)
        rules, oms = c["rules"], c.get("onmatch_rules") or []
        if x == 0:
            # the same characters in the same order, split into other tokens
            names = [t for t in sorted(c["tokens"]) if t != w["default"]]
            if len(names) > 1:
                i = rng.randrange(len(names) - 1)
                a, b = names[i], names[i + 1]
                k = rng.randrange(1, len(a + b))
                new = {a: (a + b)[:k], b: (a + b)[k:]}
                rest = set(c["tokens"]) - {a, b}
                if new[a] != new[b] and not rest & set(new.values()):
                    def name(t):
                        return new.get(t, t)
                    c["tokens"] = {name(t): v for t, v in c["tokens"].items()}
                    for r in rules:
                        for part in ("tokens", "prev_tokens", "next_tokens"):
                            if r.get(part):
                                r[part] = [name(t) for t in r[part]]
        elif x == 1 and rules:
            # a part of a rule on the other side
            r = pick(rng, rules)
            a, b = pick(rng, [("prev_tokens", "next_tokens"), ("prev_classes", "next_classes")])
            r[a], r[b] = r.get(b), r.get(a)
            for part in (a, b):
                if not r[part]:
                    del r[part]
        elif x == 2 and rules:
            prods = [r["production"] for r in rules]
            rng.shuffle(prods)
            for r, p in zip(rules, prods):
                r["production"] = p
        elif x == 3 and oms:
            o = pick(rng, oms)
            o["production"] = rng.choice([o["production"] + "'", "", o["production"][::-1]])
        elif x == 4 and oms:
            rng.shuffle(oms)
        elif x == 5:
            ws = [t for t in c["tokens"] if w["token_class"] in c["tokens"][t]]
            w["default"] = pick(rng, ws)
        elif x == 6 and rules:
            r = pick(rng, rules)
            r["tokens"] = list(reversed(r["tokens"])) if rng.random() < 0.5 else [pick(rng, sorted(c["tokens"])) for _ in r["tokens"]]
        else:
            w["consolidate"] = not w["consolidate"]
    return c
