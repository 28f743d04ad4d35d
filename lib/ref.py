# -*- coding: utf-8 -*-
"""
Executable reference model: what tokenization, matching, on-match insertion,
consolidation, error handling and ambiguity are documented to be, written
independently of how the library computes them (no tree, no costs, no regular
expressions).
"""
import math


class R(tuple):
    """A rule: (production, prev_classes, prev_tokens, tokens, next_tokens, next_classes)."""

    __slots__ = ()
    prod = property(lambda s: s[0])
    pc = property(lambda s: s[1])
    pt = property(lambda s: s[2])
    t = property(lambda s: s[3])
    nt = property(lambda s: s[4])
    nc = property(lambda s: s[5])

    @property
    def need(self):
        return len(self[1]) + len(self[2]) + len(self[3]) + len(self[4]) + len(self[5])


def rule(d):
    """From a settings dict, or anything with attributes (TransliterationRule)."""
    if isinstance(d, R):
        return d
    if isinstance(d, dict):
        g = d.get
    else:
        def g(k):
            return getattr(d, k)
    return R((
        g("production"),
        tuple(g("prev_classes") or ()),
        tuple(g("prev_tokens") or ()),
        tuple(g("tokens") or ()),
        tuple(g("next_tokens") or ()),
        tuple(g("next_classes") or ()),
    ))


def onmatch(d):
    if isinstance(d, dict):
        return (tuple(d["prev_classes"]), tuple(d["next_classes"]), d["production"])
    return (tuple(d.prev_classes), tuple(d.next_classes), d.production)


def cost(need):
    return math.log2(1 + 1 / (1 + need))


class Model:
    """Reference semantics of one configuration."""

    def __init__(self, cfg):
        self.tokens = {k: frozenset(v) for k, v in cfg["tokens"].items()}
        self.rules = [rule(r) for r in cfg["rules"]]
        self.onmatch = [onmatch(o) for o in (cfg.get("onmatch_rules") or [])]
        ws = cfg["whitespace"]
        self.default = ws["default"]
        self.wsclass = ws["token_class"]
        self.consolidate = ws["consolidate"]
        self.lengths = sorted({len(t) for t in self.tokens}, reverse=True)
        self.by_first = {}
        for n, r in enumerate(self.rules):
            self.by_first.setdefault(r.t[0], []).append(n)

    # -- tokenization

    def raw_tokens(self, s):
        """[(token or None for a skipped character, position)]"""
        out = []
        i = 0
        n = len(s)
        toks = self.tokens
        while i < n:
            for ln in self.lengths:
                if i + ln <= n and s[i:i + ln] in toks:
                    out.append((s[i:i + ln], i))
                    i += ln
                    break
            else:
                out.append((None, i))
                i += 1
        return out

    def is_ws(self, t):
        return self.wsclass in self.tokens[t]

    def consolidated(self, toks):
        if not self.consolidate:
            return list(toks)
        out = []
        i = 0
        n = len(toks)
        while i < n:
            if not self.is_ws(toks[i]):
                out.append(toks[i])
                i += 1
                continue
            j = i
            while j < n and self.is_ws(toks[j]):
                j += 1
            if i > 0 and j < n:
                out.append(toks[i] if j - i == 1 else self.default)
            i = j
        return out

    def tokenize(self, s):
        """(framed tokens, positions of unrecognizable characters)"""
        raw = self.raw_tokens(s)
        bad = [p for t, p in raw if t is None]
        mid = self.consolidated([t for t, _ in raw if t is not None])
        return [self.default] + mid + [self.default], bad

    # -- matching

    def has(self, tok, cls):
        return cls in self.tokens[tok]

    def fits(self, r, toks, i):
        n = len(toks)
        e = i + len(r.t)
        if e > n or tuple(toks[i:e]) != r.t:
            return False
        p = i - len(r.pt)
        if p < 0 or tuple(toks[p:i]) != r.pt:
            return False
        q = p - len(r.pc)
        if q < 0:
            return False
        for k, c in enumerate(r.pc):
            if not self.has(toks[q + k], c):
                return False
        f = e + len(r.nt)
        if f > n or tuple(toks[e:f]) != r.nt:
            return False
        if f + len(r.nc) > n:
            return False
        for k, c in enumerate(r.nc):
            if not self.has(toks[f + k], c):
                return False
        return True

    def applicable(self, toks, i):
        """Indices (in configuration order) of the rules that fit at i."""
        if i >= len(toks):
            return []
        return [n for n in self.by_first.get(toks[i], ()) if self.fits(self.rules[n], toks, i)]

    def best(self, toks, i):
        a = self.applicable(toks, i)
        if not a:
            return []
        m = max(self.rules[n].need for n in a)
        return [n for n in a if self.rules[n].need == m]

    def onmatch_at(self, toks, i):
        for k, (p, nx, prod) in enumerate(self.onmatch):
            if i - len(p) < 0 or i + len(nx) > len(toks):
                continue
            if all(self.has(toks[i - len(p) + x], c) for x, c in enumerate(p)) and all(
                self.has(toks[i + x], c) for x, c in enumerate(nx)
            ):
                return k
        return None

    # -- transliteration

    def run(self, s, choose=None):
        """Lenient run. `choose(step, best)` picks among equally specific rules.

        Returns dict: tokens, bad (positions), steps [(i, rule index)], nomatch [i],
        output."""
        toks, bad = self.tokenize(s)
        i = 1
        out = []
        steps = []
        nomatch = []
        ties = False
        applied = []
        while i < len(toks) - 1:
            b = self.best(toks, i)
            if not b:
                nomatch.append(i)
                i += 1
                continue
            if len(b) > 1:
                ties = True
            n = b[0] if choose is None else choose(len(steps), b)
            r = self.rules[n]
            k = self.onmatch_at(toks, i)
            if k is not None:
                out.append(self.onmatch[k][2])
                applied.append((i, k))
            out.append(r.prod)
            steps.append((i, n))
            i += len(r.t)
        # consuming beyond the final whitespace is possible for rules ending with it
        return {
            "tokens": toks, "bad": bad, "steps": steps, "nomatch": nomatch, "ties": ties,
            "output": "".join(out), "end": i, "applied": applied,
        }


# ------------------------------------------------------------------- ambiguity


def box(r, by_class):
    """Offsets (0 = first matched token) to the set of tokens allowed there."""
    out = {}
    o = -len(r.pt) - len(r.pc)
    for c in r.pc:
        out[o] = by_class.get(c, frozenset())
        o += 1
    for t in r.pt:
        out[o] = frozenset([t])
        o += 1
    for t in r.t:
        out[o] = frozenset([t])
        o += 1
    for t in r.nt:
        out[o] = frozenset([t])
        o += 1
    for c in r.nc:
        out[o] = by_class.get(c, frozenset())
        o += 1
    return out


def by_class_of(tokens):
    out = {}
    for t, cs in tokens.items():
        for c in cs:
            out.setdefault(c, set()).add(t)
    return {k: frozenset(v) for k, v in out.items()}


def meet(a, b):
    out = dict(a)
    for o, s in b.items():
        s = out[o] & s if o in out else s
        if not s:
            return None
        out[o] = s
    for s in out.values():
        if not s:
            return None
    return out


def covers(c, overlap, all_tokens):
    for o, s in c.items():
        if not (overlap.get(o, all_tokens) <= s):
            return False
    return True


def ambiguous_pairs(rules, tokens):
    """[(i, j, overlap)] of equal specificity, overlapping, not covered by one more specific rule."""
    by = by_class_of(tokens)
    alltok = frozenset(tokens)
    boxes = [box(r, by) for r in rules]
    groups = {}
    for n, r in enumerate(rules):
        groups.setdefault(r.need, []).append(n)
    out = []
    for need, g in groups.items():
        for x in range(len(g)):
            for y in range(x + 1, len(g)):
                m = meet(boxes[g[x]], boxes[g[y]])
                if m is None:
                    continue
                if any(r.need > need and covers(boxes[c], m, alltok) for c, r in enumerate(rules)):
                    continue
                out.append((g[x], g[y], m))
    return out
