# -*- coding: utf-8 -*-
"""
Independent reader of the documented easy-reading notation (no regular expressions),
used where the library's own reading must not be the oracle.
"""
import unicodedata

import yaml


class NotPlain(Exception):
    """The key is not in the unambiguous documented notation."""


def _items(s):
    """Splits 'a b <c d>' into ('t', token) and ('c', class) items."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == " ":
            i += 1
        elif s[i] == "<" and ">" in s[i:]:
            j = s.index(">", i)
            if j == i + 1:
                raise NotPlain(s)
            out.append(("c", s[i + 1:j]))
            i = j + 1
        else:
            j = s.find(" ", i)
            j = len(s) if j < 0 else j
            out.append(("t", s[i:j]))
            i = j
    return out


def rule(key, production):
    r = {"production": production}
    if key == " ":
        r["tokens"] = [" "]
        return r
    prev = nxt = None
    mid = key
    if mid.startswith("(") and ") " in mid:
        j = mid.index(") ")
        prev, mid = _items(mid[1:j]), mid[j + 2:]
        if [k for k, _ in prev] != sorted(k for k, _ in prev):  # classes, then tokens
            raise NotPlain(key)
    if mid.endswith(")") and " (" in mid:
        j = mid.rindex(" (")
        nxt, mid = _items(mid[j + 2:-1]), mid[:j]
        if [k for k, _ in nxt] != sorted([k for k, _ in nxt], reverse=True):  # tokens, then classes
            raise NotPlain(key)
    if mid.strip(" ") == "" and mid:
        items = [("t", mid)]
    else:
        items = _items(mid)
    lead = 0
    while lead < len(items) and items[lead][0] == "c":
        lead += 1
    tail = len(items)
    while tail > lead and items[tail - 1][0] == "c":
        tail -= 1
    if lead and prev is not None or tail < len(items) and nxt is not None:
        raise NotPlain(key)
    if any(k == "c" for k, _ in items[lead:tail]) or lead == tail:
        raise NotPlain(key)
    prev = prev if prev is not None else items[:lead]
    nxt = nxt if nxt is not None else items[tail:]
    r["prev_classes"] = [v for k, v in prev if k == "c"]
    r["prev_tokens"] = [v for k, v in prev if k == "t"]
    r["tokens"] = [v for k, v in items[lead:tail]]
    r["next_tokens"] = [v for k, v in nxt if k == "t"]
    r["next_classes"] = [v for k, v in nxt if k == "c"]
    return {k: v for k, v in r.items() if v or k in ("production", "tokens")}


def onmatch(key, production):
    a, plus, b = key.partition("+")
    if not plus:
        raise NotPlain(key)
    p, n = _items(a.strip()), _items(b.strip())
    if not p or not n or any(k != "c" for k, _ in p + n):
        raise NotPlain(key)
    return {"prev_classes": [v for _, v in p], "next_classes": [v for _, v in n], "production": production}


def unescape(text):
    """Replaces \\N{NAME} by the character named."""
    out = []
    i = 0
    while True:
        j = text.find("\\N{", i)
        if j < 0:
            out.append(text[i:])
            return "".join(out)
        k = text.index("}", j)
        out.append(text[i:j])
        out.append(unicodedata.lookup(text[j + 3:k]))
        i = k + 1


def config_of_yaml(text):
    """Direct configuration from easy-reading YAML text."""
    y = yaml.safe_load(unescape(text))
    cfg = {"tokens": {str(k): [str(c) for c in v] for k, v in y["tokens"].items()},
           "rules": [rule(k, v) for k, v in y["rules"].items()],
           "whitespace": dict(y["whitespace"])}
    if y.get("onmatch_rules"):
        cfg["onmatch_rules"] = [onmatch(*list(o.items())[0]) for o in y["onmatch_rules"]]
    if "metadata" in y:
        cfg["metadata"] = y["metadata"]
    return cfg
