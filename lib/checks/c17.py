"""C17: construction routes agree; character names are unescaped."""
import collections.abc
import os
import unicodedata

import yaml

from base import G, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape, in_ascii_locale

ID = "C17"

_names = []


def names():
    if not _names:
        for cp in range(0x20, 0x110000):
            if 0xD800 <= cp < 0xE000:
                continue
            n = unicodedata.name(chr(cp), None)
            if n and chr(cp).isprintable():
                _names.append((n, chr(cp)))
    return _names


def escape_some(rng, text, mon):
    """Gives characters of a text by name: as names are unescaped before the text is read, any can be."""
    named = [i for i, ch in enumerate(text) if ch > " " and ch != "\\" and unicodedata.name(ch, None)]
    if not named:
        return text
    x = rng.random()
    k = 1 if x < 0.35 else rng.randrange(1, 6) if x < 0.7 else max(1, int(len(named) * rng.choice([0.05, 0.3, 1.0])))
    where = set(rng.sample(named, min(k, len(named))))
    if rng.random() < 0.3:  # only what is not ASCII
        where = {i for i in named if text[i] > "~"} or where
    mon.count("characters_named", len(where))
    mon.maximum("first_name_at", min(where))
    return "".join("\\N{%s}" % unicodedata.name(ch) if i in where else ch for i, ch in enumerate(text))


def loads_as(text, settings):
    try:
        return yaml.safe_load(text) == settings
    except yaml.YAMLError:
        return False


def padded(rng, text):
    """Comments and blank lines."""
    x = rng.random()
    if x < 0.6:
        return text
    pad = "".join("# %s\n" % ("x" * rng.randrange(0, 90)) for _ in range(rng.choice([1, 5, 60, 200])))
    if x < 0.75:
        return text + pad
    return pad + text


def kinds(gt, route):
    """What is documented of the attributes, whatever the route."""
    for what, x in (("tokens", gt.tokens), ("tokens_by_class", gt.tokens_by_class)):
        for k in x:
            if not isinstance(x[k], collections.abc.Set):
                raise Violation("not a set", of=what, key=k, got=short(x[k]), route=route)
    inverse = {}
    for t in gt.tokens:
        for c in gt.tokens[t]:
            inverse.setdefault(c, set()).add(t)
    got = {c: set(v) for c, v in gt.tokens_by_class.items() if v}
    if got != inverse:
        raise Violation("tokens by class are not the tokens of each class", route=route, got=short(got), want=short(inverse))


def case(rng, mon):
    if rng.random() < 0.35:
        return charnames(rng, mon)
    cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0.02, onmatch=0.5))
    if not cfg["rules"]:
        return
    mon.current = {"cfg": cfg}
    scratch = os.environ["VERIF_SCRATCH"]
    easy = gen.easy_settings(cfg)
    ytext = yaml.safe_dump(easy, allow_unicode=True, sort_keys=False, default_flow_style=rng.choice([True, False, None]), width=rng.choice([20, 80, 4000]))
    if rng.random() < 0.3:
        ytext = yaml.safe_dump(easy, allow_unicode=False, sort_keys=False)
    alt = ytext.replace("\\t", "\t")
    if alt != ytext and rng.random() < 0.5 and loads_as(alt, easy):
        ytext = alt
        mon.count("raw_tabs")
    if rng.random() < 0.1 and loads_as(ytext.replace("\n", "\r\n"), easy):
        ytext = ytext.replace("\n", "\r\n")
        mon.count("carriage_returns")
    if rng.random() < 0.1 and ytext.startswith("tokens:"):
        alt = "".join("  " + x for x in ytext.splitlines(True))
        if loads_as(alt, easy):
            ytext = alt
            mon.count("indented")
    if yaml.safe_load(ytext) != easy:
        return  # not expressible in YAML as written
    if "\\N{" in ytext:
        return
    ytext = padded(rng, ytext)
    named = escape_some(rng, ytext, mon)
    mon.current["named"] = short(named, 3000)
    path = os.path.join(scratch, "c17-%d.yaml" % mon.wid)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(ytext)
    npath = os.path.join(scratch, "c17n-%d.yaml" % mon.wid)
    with open(npath, "w", encoding="utf-8", newline="") as f:
        f.write(named)
    a = build(cfg)
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.25, long=0.0) for _ in range(4)]
    want = settings_of(a), graph_of(a), behaviour(a, inputs, [gen.framed_seq(rng, cfg, 5, mem)])
    kinds(a, "from_dict")
    routes = ["yaml_raw", "yaml_file_raw", "yaml_file"]
    skip = set(rng.sample(routes, 2))  # a few at a time
    for name, make in (
        ("easy", lambda: G.from_easyreading_dict(easy, check_ambiguity=False)),
        ("yaml", lambda: G.from_yaml(ytext, check_ambiguity=False)),
        ("yaml_raw", lambda: G.from_yaml(ytext, charnames_escaped=False, check_ambiguity=False)),
        ("yaml_file", lambda: G.from_yaml_file(path, check_ambiguity=False)),
        ("yaml_file_raw", lambda: G.from_yaml_file(path, charnames_escaped=False, check_ambiguity=False)),
        ("yaml_named", lambda: G.from_yaml(named, check_ambiguity=False)),
        ("yaml_file_named", lambda: G.from_yaml_file(npath, check_ambiguity=False)),
    ):
        if name in skip:
            continue
        mon.current["route"] = name
        g = make()
        same("settings by route %s" % name, settings_of(g), want[0])
        same("graph by route %s" % name, graph_of(g), want[1])
        kinds(g, name)
        b = behaviour(g, inputs)
        same_behaviour("by route %s" % name, b, want[2][: len(b)])
        mon.count("routes")
    mon.count("configs")
    mon.feature(cfg_shape(cfg))
    mon.sample({"yaml": short(ytext, 400)})


SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def charnames(rng, mon):
    ns = names()
    k = rng.randrange(1, 12)
    chosen = [gen.pick(rng, ns) for _ in range(k)]
    if rng.random() < 0.3:
        chosen += [c for c in (gen.pick(rng, ns) for _ in range(40)) if any(ch.isdigit() or ch == "-" for ch in c[0])][:6]
    chosen = [c for c in dict.fromkeys(chosen) if not c[1].isspace()]
    prods = {}
    lines = ["tokens:", "  ' ': [wb]"]
    # tokens by name (quoted), used as rule keys by name
    tok = []
    for n, ch in chosen:
        if gen.easy_ok_token(ch) and ch not in "'\"\\#&*!|>%@`{}[],?:-" and unicodedata.category(ch)[0] in "LNS" and ch not in prods:
            lines.append("  '\\N{%s}': [x]" % n)
            tok.append((n, ch))
            prods[ch] = None
    lines.append("  a: [x]")
    lines.append("rules:")
    rules = {}
    for j, (n, ch) in enumerate(tok):
        m, other = gen.pick(rng, chosen)
        if other in "'\\":
            m, other = n, ch
        rep = rng.choice([1, 1, 2, 3])
        lines.append("  '\\N{%s}': '%d\\N{%s}x%s'" % (n, j, m, ("\\N{%s}" % m) * (rep - 1)))
        rules[ch] = "%d%sx%s" % (j, other, other * (rep - 1))
    m, other = gen.pick(rng, chosen) if chosen else ("DIGIT ONE", "1")
    if other in "'\\":
        m, other = "DIGIT ONE", "1"
    lines.append("  a: '\\N{%s}'" % m)
    rules["a"] = other
    lines += ["whitespace:", "  default: ' '", "  token_class: wb", "  consolidate: false"]
    text = "\n".join(lines) + "\n"
    mon.current = {"yaml": text}
    gt = G.from_yaml(text, check_ambiguity=False)
    got = {"".join(r.tokens): r.production for r in gt.rules}
    if got != rules:
        raise Violation("character names were not unescaped to the named characters", got=short(got), want=short(rules))
    for ch, p in rules.items():
        if gt.transliterate(ch) != p:
            raise Violation("transliteration of a character given by name differs", input=ch, got=gt.transliterate(ch), want=p)
        mon.count("named_characters")
    for n, _ in chosen:
        mon.feature("name", n)
        if any(c.isdigit() for c in n):
            mon.count("names_with_digits")


def probe_locale(rng, mon):
    """A YAML file is read as what it says whatever the locale."""
    jobs, want = [], []
    for k in range(25):
        cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0, styles=[("uni", 3), ("mixed", 1)]))
        easy = gen.easy_settings(cfg)
        ytext = yaml.safe_dump(easy, allow_unicode=True, sort_keys=False)
        if not cfg["rules"] or not loads_as(ytext, easy) or "\\N{" in ytext:
            continue
        path = os.path.join(os.environ["VERIF_SCRATCH"], "c17l-%d-%d.yaml" % (mon.wid, k))
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(ytext)
        inputs = [gen.text(rng, cfg, errors=0.2, long=0.0) for _ in range(3)]
        g = G.from_yaml(ytext, check_ambiguity=False)
        g.ignore_errors = True
        jobs.append([path, inputs])
        want.append(["ok", [g.dumps(compression_level=2), [g.transliterate(s) for s in inputs]]])
    mon.current = {"probe": "locale"}
    out = in_ascii_locale(mon, {"files": jobs})
    if out is None:
        return
    for j, a, b in zip(jobs, out["files"], want):
        if a != b:
            raise Violation("a YAML file gives another transliterator in a process with an ASCII locale", file=open(j[0], encoding="utf-8").read(),
                            inputs=short(j[1]), got=short(a), want=short(b))
        mon.count("files_in_other_locale")


PROBES = [probe_locale]
